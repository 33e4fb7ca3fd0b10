"""Just enough DER to forge certificate status responses byte by byte."""


def tlv(tag, body):
    n = len(body)
    if n < 0x80:
        length = bytes([n])
    else:
        nb = (n.bit_length() + 7) // 8
        length = bytes([0x80 | nb]) + n.to_bytes(nb, 'big')
    return bytes([tag]) + length + body


def seq(*items):
    return tlv(0x30, b''.join(items))


def integer(i):
    nb = i.bit_length() // 8 + 1
    return tlv(2, i.to_bytes(nb, 'big', signed=True))


def octets(b):
    return tlv(4, b)


def enum(i):
    return tlv(10, bytes([i]))


def null():
    return b'\x05\x00'


def bits(b):
    return tlv(3, b'\x00' + b)


def oid(dotted):
    parts = [int(p) for p in dotted.split('.')]
    out = bytearray([parts[0] * 40 + parts[1]])
    for p in parts[2:]:
        chunk = [p & 0x7f]
        p >>= 7
        while p:
            chunk.append(0x80 | (p & 0x7f))
            p >>= 7
        out += bytes(reversed(chunk))
    return tlv(6, bytes(out))


def gentime(dt):
    return tlv(0x18, dt.strftime('%Y%m%d%H%M%SZ').encode())


def children(el):
    """the elements inside one element"""
    def head(b):
        n, h = b[1], 2
        if n & 0x80:
            k = n & 0x7f
            n, h = int.from_bytes(b[2:2 + k], 'big'), 2 + k
        return n, h
    n, h = head(el)
    body, out = el[h:h + n], []
    while body:
        n, h = head(body)
        out.append(body[:h + n])
        body = body[h + n:]
    return out
