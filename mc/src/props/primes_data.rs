// Generated by tools/gen_keys.py: (k, largest prime below 2^k, smallest prime above 2^k).
pub const NEAR_POWERS: &[(u32, u128, u128)] = &[
    (2, 3, 5),
    (3, 7, 11),
    (4, 13, 17),
    (5, 31, 37),
    (6, 61, 67),
    (7, 127, 131),
    (8, 251, 257),
    (9, 509, 521),
    (10, 1021, 1031),
    (11, 2039, 2053),
    (12, 4093, 4099),
    (13, 8191, 8209),
    (14, 16381, 16411),
    (15, 32749, 32771),
    (16, 65521, 65537),
    (17, 131071, 131101),
    (18, 262139, 262147),
    (19, 524287, 524309),
    (20, 1048573, 1048583),
    (21, 2097143, 2097169),
    (22, 4194301, 4194319),
    (23, 8388593, 8388617),
    (24, 16777213, 16777259),
    (25, 33554393, 33554467),
    (26, 67108859, 67108879),
    (27, 134217689, 134217757),
    (28, 268435399, 268435459),
    (29, 536870909, 536870923),
    (30, 1073741789, 1073741827),
    (31, 2147483647, 2147483659),
    (32, 4294967291, 4294967311),
    (33, 8589934583, 8589934609),
    (34, 17179869143, 17179869209),
    (35, 34359738337, 34359738421),
    (36, 68719476731, 68719476767),
    (37, 137438953447, 137438953481),
    (38, 274877906899, 274877906951),
    (39, 549755813881, 549755813911),
    (40, 1099511627689, 1099511627791),
    (41, 2199023255531, 2199023255579),
    (42, 4398046511093, 4398046511119),
    (43, 8796093022151, 8796093022237),
    (44, 17592186044399, 17592186044423),
    (45, 35184372088777, 35184372088891),
    (46, 70368744177643, 70368744177679),
    (47, 140737488355213, 140737488355333),
    (48, 281474976710597, 281474976710677),
    (49, 562949953421231, 562949953421381),
    (50, 1125899906842597, 1125899906842679),
    (51, 2251799813685119, 2251799813685269),
    (52, 4503599627370449, 4503599627370517),
    (53, 9007199254740881, 9007199254740997),
    (54, 18014398509481951, 18014398509482143),
    (55, 36028797018963913, 36028797018963971),
    (56, 72057594037927931, 72057594037928017),
    (57, 144115188075855859, 144115188075855881),
    (58, 288230376151711717, 288230376151711813),
    (59, 576460752303423433, 576460752303423619),
    (60, 1152921504606846883, 1152921504606847009),
    (61, 2305843009213693951, 2305843009213693967),
    (62, 4611686018427387847, 4611686018427388039),
    (63, 9223372036854775783, 9223372036854775837),
    (64, 18446744073709551557, 18446744073709551629),
    (65, 36893488147419103183, 36893488147419103363),
    (66, 73786976294838206459, 73786976294838206473),
    (67, 147573952589676412909, 147573952589676412931),
    (68, 295147905179352825833, 295147905179352825889),
    (69, 590295810358705651693, 590295810358705651741),
    (70, 1180591620717411303389, 1180591620717411303449),
    (71, 2361183241434822606617, 2361183241434822606859),
    (72, 4722366482869645213603, 4722366482869645213711),
    (73, 9444732965739290427323, 9444732965739290427421),
    (74, 18889465931478580854749, 18889465931478580854821),
    (75, 37778931862957161709471, 37778931862957161709601),
    (76, 75557863725914323419121, 75557863725914323419151),
    (77, 151115727451828646838239, 151115727451828646838283),
    (78, 302231454903657293676533, 302231454903657293676551),
    (79, 604462909807314587353021, 604462909807314587353111),
    (80, 1208925819614629174706111, 1208925819614629174706189),
    (81, 2417851639229258349412301, 2417851639229258349412369),
    (82, 4835703278458516698824647, 4835703278458516698824713),
    (83, 9671406556917033397649353, 9671406556917033397649483),
    (84, 19342813113834066795298781, 19342813113834066795298819),
    (85, 38685626227668133590597613, 38685626227668133590597803),
    (86, 77371252455336267181195229, 77371252455336267181195291),
    (87, 154742504910672534362390461, 154742504910672534362390567),
    (88, 309485009821345068724780757, 309485009821345068724781063),
    (89, 618970019642690137449562111, 618970019642690137449562141),
    (90, 1237940039285380274899124191, 1237940039285380274899124357),
    (91, 2475880078570760549798248403, 2475880078570760549798248507),
    (92, 4951760157141521099596496813, 4951760157141521099596496921),
    (93, 9903520314283042199192993767, 9903520314283042199192993897),
    (94, 19807040628566084398385987581, 19807040628566084398385987713),
    (95, 39614081257132168796771975153, 39614081257132168796771975177),
    (96, 79228162514264337593543950319, 79228162514264337593543950397),
    (97, 158456325028528675187087900531, 158456325028528675187087900777),
    (98, 316912650057057350374175801293, 316912650057057350374175801351),
    (99, 633825300114114700748351602573, 633825300114114700748351602943),
    (100, 1267650600228229401496703205361, 1267650600228229401496703205653),
    (101, 2535301200456458802993406410683, 2535301200456458802993406410833),
    (102, 5070602400912917605986812821471, 5070602400912917605986812821771),
    (103, 10141204801825835211973625642911, 10141204801825835211973625643089),
    (104, 20282409603651670423947251285999, 20282409603651670423947251286127),
    (105, 40564819207303340847894502572019, 40564819207303340847894502572071),
    (106, 81129638414606681695789005143947, 81129638414606681695789005144163),
    (107, 162259276829213363391578010288127, 162259276829213363391578010288167),
    (108, 324518553658426726783156020576197, 324518553658426726783156020576289),
    (109, 649037107316853453566312041152481, 649037107316853453566312041152659),
    (110, 1298074214633706907132624082305003, 1298074214633706907132624082305051),
    (111, 2596148429267413814265248164610011, 2596148429267413814265248164610099),
    (112, 5192296858534827628530496329220021, 5192296858534827628530496329220121),
    (113, 10384593717069655257060992658440059, 10384593717069655257060992658440473),
    (114, 20769187434139310514121985316880373, 20769187434139310514121985316880427),
    (115, 41538374868278621028243970633760701, 41538374868278621028243970633760839),
    (116, 83076749736557242056487941267521533, 83076749736557242056487941267521569),
    (117, 166153499473114484112975882535042793, 166153499473114484112975882535043101),
    (118, 332306998946228968225951765070086139, 332306998946228968225951765070086169),
    (119, 664613997892457936451903530140172219, 664613997892457936451903530140172297),
    (120, 1329227995784915872903807060280344457, 1329227995784915872903807060280345027),
    (121, 2658455991569831745807614120560689079, 2658455991569831745807614120560689193),
    (122, 5316911983139663491615228241121378301, 5316911983139663491615228241121378581),
    (123, 10633823966279326983230456482242756541, 10633823966279326983230456482242756773),
    (124, 21267647932558653966460912964485513157, 21267647932558653966460912964485513283),
    (125, 42535295865117307932921825928971026423, 42535295865117307932921825928971026459),
    (126, 85070591730234615865843651857942052727, 85070591730234615865843651857942052871),
];
