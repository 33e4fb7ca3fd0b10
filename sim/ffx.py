"""Finite field exponents whose public value (Y) or shared secret (Z, pairs) starts with a zero byte."""
Y = {256: [2131083982556984658259648739428272571516886228044254572703234794411307745771442690897679382769631675569854516832172035729, 1660281672613924580629852504978008890476263878187137725931077158267357431279910321587884776539070102955567660442851192947], 257: [1893451006351043858437322928548494272477347095642162237610467783162011489117335748735046501360329351501560568527734985696, 2480662710089336876135389388261595969335087676628689059585083535367760926087565432979715620858366361804747558794796638311], 258: [1292535728419580027608194443279098266524697755634792358865474527788273532071958192787399023935862459123216809977757512449, 1467705684992519411857966701995892426080228389378528470573533099476019918230833394111568001331486732570945698832489061325]}
Z = {256: [(1901216456419100243433896677612904832692178493370046705580827238561802480702294105968199985448855363265195670288737645943, 1358665889298237946778573764149128165325428448591194720130148974280955022134078687531361725852823188740394666644461120879), (1901216456419100243433896677612904832692178493370046705580827238561802480702294105968199985448855363265195670288737645943, 1448201584075368040382398071146571127417590596788812352645423598094442498535110803154626030292237221287349074956676697902)], 257: [(2107908876318062521530131179921491827980867716433233393753999507181439615862172519425872312980973625854965646552801260572, 2362346376086391611850035961620613479071039262083885439649832282423471553409459763822052384201470857494353265419903367765), (2107908876318062521530131179921491827980867716433233393753999507181439615862172519425872312980973625854965646552801260572, 1410213615277043174256993211313874138521719640796045140798444952429546044460550279069086007816678315154255161093087263896)], 258: [(2516045216598879801687079061301805387933620307735462429469996922708693282527648994418739144428971651214066352344576425459, 2250670141513562097517815099082894501427426834641886983869617894358435109442462672174031381251949983656121742835020177937), (2516045216598879801687079061301805387933620307735462429469996922708693282527648994418739144428971651214066352344576425459, 1914661657709889401982291535972128381063889654496534245196275060868783535661513289408226275336540873656154117148576998314)]}
