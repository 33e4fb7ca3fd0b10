"""Pairs of ends: real against real, or real against the reference peer."""
from . import gen, pki, ref
from .core import HarnessError, Violation
from .ep import CUTS, EP, cut, settle

MODES = {'rr': 'real client, real server', 'cr': 'reference client, real server',
         'sr': 'real client, reference server'}


def compatible(run, tries=30, *, ff=False, simple=False, auth=None, leafs=gen.LEAFS):
    """two configurations that must agree on something"""
    for _ in range(tries):
        c = gen.client(run, auth=auth, ff=ff, simple=simple)
        s = gen.server(run, ff=ff, simple=simple, leafs=leafs)
        d = gen.deal(c, s)
        if d.ok:
            return c, s, d
    c = gen.Spec('client', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], store='AB', host=pki.HOST)
    s = gen.Spec('server', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [],
                 chain='leaf-ec256', key='ec256:leaf')
    return c, s, gen.deal(c, s)


def make(run, mode, c, s, *, tag='', layout=None, copts=None, sopts=None, cocsp=None, socsp=None,
         cconfig=None, sconfig=None, cmut=None, smut=None, flight=None):
    """-> client, server; neither started"""
    if mode in ('rr', 'sr'):
        client = EP(run, 'client' + tag, cconfig or gen.build(c), c.host, cocsp)
    else:
        client = ref.RefClient(run, gen.ref_client_opts(c, **(copts or {})), layout, mut=cmut)
    if mode in ('rr', 'cr'):
        server = EP(run, 'server' + tag, sconfig or gen.build(s), None, socsp)
        server.start()
    else:
        server = ref.RefServer(run, gen.ref_server_opts(s, **(sopts or {})), layout, mut=smut, flight=flight)
    return client, server


def handshake(run, client, server, styles=('whole', 'whole')):
    client.start()
    return settle(run, client, server, styles)


def up(run, mode=None, *, simple=None, ff=False, auth=None, spec=None, tag='', record=None, **kw):
    """a connected pair -> (mode, client, server, deal).  Failing to connect is a violation."""
    ch = run.ch
    mode = mode or ch.pick('mode', ['rr', 'cr', 'sr'])
    if spec is None:
        simple = ch.flip('simple', .5) if simple is None else simple
        spec = compatible(run, simple=simple, ff=ff, auth=auth)
    c, s, d = spec
    client, server = make(run, mode, c, s, tag=tag, **kw)
    client.start()
    settle(run, client, server, tap=record)
    if not (client.connected and server.connected):
        raise Violation('no-handshake', f'{MODES[mode]}: two compatible peers did not connect: '
                        f'{c} {s}; client {why(client)}, server {why(server)}')
    return mode, client, server, d


def why(x):
    if isinstance(x, EP):
        return f'errors {[repr(e) for e in x.errors]} connected {x.connected}'
    return f'error {x.error!r} complete {x.complete} alerts {x.alerts}'


def is_prefix(a, b):
    return len(a) <= len(b) and bytes(b[:len(a)]) == bytes(a)


def data(run, label='data', hi=3000):
    n = run.ch.size(label, 0, hi)
    return run.rand.randbytes(n)
