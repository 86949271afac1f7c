// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{3,4},{9,0},{24,3},{66,4},{9,21},{9,12},{15,21},{74,0},{71,0},{72,25},{77,0},{86,0},{83,0},{95,0},{18,15},{66,12},{66,14},{66,10},{89,0},{92,0},{78,27},{84,29},{69,24},{80,0},{98,0},{101,0},{104,0},{113,0},{116,0},{118,23},{69,41},{127,54},{140,0},{143,0},{146,0},{149,0},{165,42},{117,40},{129,44},{150,51},{168,57},{185,0},{69,61},{183,40},{188,0},{191,0},{186,26},{156,62},{207,68},{210,71},{218,0},{219,40},{69,73},{229,26},{159,79},{133,78},{239,0},{237,28},{240,81},{272,0},{257,0},{231,85},{90,86},{189,85},{90,86},{151,89},{263,0},{265,28},{259,30},{260,0},{6,91},{12,91},{9,91},{63,91},{18,91},{45,91},{57,91},{15,91},{39,91},{21,91},{54,91},{66,91},{30,91},{27,91},{60,91},{3,91},{24,91},{48,91},{51,91},{42,91},{33,91},{36,91},{0,91},{276,63},{290,0},{303,51},{273,40},{297,87},{279,74},{231,92},{279,75},{279,73},{299,0},{284,0},{255,97},{135,94},{93,94},{308,0},{314,0},{329,0},{311,0},{307,109},{320,0},{319,104},{335,0},{347,0},{365,0},{356,0},{309,2},{359,0},{323,0},{332,0},{316,108},{371,0},{353,0},{315,3},{362,0},{338,0},{319,104},{344,0},{327,3},{374,0},{368,0},{345,4},{342,7},{339,4},{327,2},{366,0},{326,0},{318,3},{333,4},{366,5},{24,106},{350,0},{341,0},{317,0},{307,113},{348,11},{273,135},{345,13},{357,7},{369,8},{366,15},{336,17},{348,21},{316,113},{291,126},{383,0},{384,61},{402,87},{294,134},{393,73},{300,129},{413,0},{416,0},{418,103},{421,105},{423,91},{421,109},{427,113},{431,0},{427,118},{421,111},{433,118},{439,109},{436,116},{309,149},{312,146},{420,149},{427,115},{432,149},{468,142},{439,114},{464,0},{427,106},{424,122},{312,144},{424,118},{427,4},{660,111},{427,221},{438,141},{482,0},{469,103},{490,122},{421,114},{490,109},{488,0},{418,115},{469,118},{24,156},{30,140},{15,163},{500,0},{497,0},{306,141},{318,140},{345,139},{354,141},{333,142},{426,146},{3,145},{515,0},{60,145},{509,0},{436,117},{426,144},{518,0},{506,0},{424,115},{524,0},{510,177},{426,176},{333,140},{536,0},{351,142},{493,116},{433,114},{345,141},{448,8},{783,123},{448,262},{420,155},{423,177},{342,144},{339,139},{539,0},{273,195},{529,116},{441,153},{545,0},{456,91},{432,152},{460,119},{465,176},{493,107},{484,121},{369,149},{438,151},{548,0},{474,91},{447,155},{363,161},{493,121},{39,151},{444,176},{457,112},{551,0},{330,147},{483,176},{554,0},{510,91},{45,159},{348,151},{357,175},{475,108},{360,170},{510,151},{475,112},{366,148},{557,0},{324,177},{348,176},{532,116},{560,0},{315,176},{564,189},{566,0},{576,127},{582,136},{542,0},{540,45},{592,106},{595,108},{599,0},{601,113},{604,116},{608,0},{610,112},{613,115},{592,111},{616,114},{619,107},{596,0},{593,0},{612,147},{622,120},{336,203},{626,0},{617,0},{632,0},{616,119},{602,0},{620,0},{635,0},{649,115},{634,106},{605,0},{652,115},{641,0},{457,215},{638,0},{644,0},{658,110},{656,0},{597,21},{667,123},{673,122},{671,0},{330,219},{643,124},{51,207},{650,0},{613,110},{680,0},{369,222},{676,118},{725,0},{719,0},{728,0},{606,163},{701,0},{722,0},{704,0},{698,0},{716,0},{713,0},{731,0},{504,247},{667,2},{743,0},{737,0},{653,0},{647,0},{754,122},{761,0},{330,204},{764,0},{767,0},{354,225},{775,111},{778,121},{770,0},{366,251},{782,0},{790,121},{794,0},{776,0},{363,259},{797,0},{800,0},{803,0},{811,108},{930,309},{815,0},{821,0},{824,0},{832,120},{826,107},{830,0},{790,113},{819,21},{835,112},{363,263},{839,0},{842,0},{848,0},{851,0},{336,278},{833,0},{825,152},{846,21},{863,0},{856,112},{854,0},{860,0},{865,120},{875,0},{872,0},{864,158},{358,293},{813,272},{884,0},{887,0},{890,0},{896,0},{901,105},{336,285},{902,0},{905,0},{899,0},{645,112},{911,0},{324,270},{914,0},{915,91},{919,187},{923,0},{294,308},{387,308},{381,309},{402,308},{935,0},{936,196},{943,107},{946,111},{949,105},{955,118},{952,108},{958,115},{961,107},{965,0},{967,110},{970,124},{947,0},{944,0},{983,0},{18,326},{973,123},{989,0},{964,120},{321,320},{57,325},{985,107},{953,0},{357,331},{957,147},{956,0},{968,0},{66,334},{174,332},{1000,122},{45,335},{21,326},{1012,121},{1027,123},{1032,163},{1016,0},{18,336},{1023,82},{0,319},
{1015,117},{1021,121},{60,339},{693,349},{1001,0},{681,345},{366,346},{694,349},{1043,0},{45,328},{1013,0},{690,348},{974,0},{1066,122},{1037,0},{345,354},{1073,0},{1075,121},{1057,202},{1046,0},{1055,0},{1061,0},{6,361},{1088,0},{1056,319},{1107,244},{1119,244},{1112,0},{1116,250},{971,0},{1022,0},{30,331},{345,374},{1115,0},{1129,117},{45,375},{36,342},{366,355},{1136,0},{363,358},{1145,0},{1147,110},{1150,102},{351,376},{1157,0},{306,383},{177,388},{1162,119},{1167,146},{1172,0},{330,382},{180,391},{1182,91},{1188,272},{1192,105},{357,387},{192,398},{195,401},{1201,116},{1198,118},{1207,116},{1211,0},{1217,0},{1213,106},{318,404},{1221,281},{1202,0},{1199,0},{1208,0},{66,409},{1225,105},{51,411},{1232,0},{1238,0},{1241,0},{1246,110},{198,414},{201,419},{1256,0},{457,422},{1265,0},{1275,426},{45,422},{1271,0},{1245,153},{1285,295},{63,430},{1286,0},{1289,0},{1126,112},{1301,0},{1307,0},{1313,0},{1317,306},{1320,99},{1187,0},{573,442},{1325,0},{1185,85},{1323,93},{1326,192},{1185,95},{1185,125},{1323,95},{1329,87},{1332,189},{1337,0},{1339,110},{1342,109},{1345,115},{1351,120},{1348,106},{1354,108},{1357,110},{1343,0},{1363,119},{51,453},{1338,153},{21,456},{330,452},{1366,110},{1371,152},{990,461},{1391,0},{1387,121},{1352,0},{1394,0},{1381,114},{1379,0},{1396,123},{1355,0},{57,466},{1346,0},{1403,0},{357,454},{1410,153},{1395,155},{1349,0},{1418,0},{1415,0},{24,469},{1424,0},{1420,110},{1406,0},{1388,0},{1448,0},{1436,0},{1437,156},{1421,0},{1449,332},{1442,0},{1453,111},{1457,0},{1432,114},{1430,0},{1382,0},{1427,0},{1445,0},{42,493},{36,495},{1484,0},{1471,237},{1466,0},{1460,0},{1469,0},{1478,0},{33,487},{1501,123},{1489,119},{1450,210},{1092,503},{691,502},{1497,359},{1496,0},{682,497},{1505,0},{1470,368},{1517,0},{1454,0},{685,472},{1524,371},{1523,0},{42,513},{330,455},{1544,0},{1529,0},{1536,163},{1535,0},{1526,0},{30,477},{1547,0},{1556,0},{1552,110},{1559,0},{357,496},{1562,0},{1140,521},{1568,0},{369,500},{1573,120},{1576,119},{330,517},{1158,527},{357,525},{1580,0},{1586,0},{1589,0},{1591,112},{1596,392},{360,524},{1595,0},{1601,0},{1610,0},{336,530},{1604,0},{1616,0},{1612,108},{1613,0},{1627,105},{1622,0},{1625,0},{1630,112},{456,544},{348,546},{1639,116},{1218,545},{1628,0},{1646,0},{1619,0},{1643,0},{1631,0},{1658,0},{60,551},{24,550},{60,549},{1660,121},{1664,0},{1248,555},{1661,0},{474,557},{1668,417},{1679,0},{1255,559},{1675,116},{1687,287},{1689,424},{1688,0},{1682,0},{1694,0},{892,564},{1697,0},{1676,0},{1703,0},{1710,425},{1709,0},{1293,571},{1717,113},{1718,0},{1719,434},{1722,436},{1607,0},{1728,91},{1731,95},{579,579},{1737,131},{1737,92},{1749,92},{1749,131},{579,583},{285,587},{1766,0},{1771,112},{1774,114},{1777,111},{1780,121},{1783,122},{1786,119},{1772,0},{1789,114},{1775,0},{1799,0},{1781,0},{15,597},{1795,122},{1808,0},{1802,0},{1814,0},{1810,120},{1805,0},{1837,114},{51,608},{1778,0},{324,613},{1838,0},{1787,0},{1822,123},{1831,117},{1788,161},{1784,0},{1794,164},{345,615},{1844,0},{1029,616},{1823,0},{42,627},{684,621},{18,620},{1853,0},{1859,0},{1871,0},{1876,102},{1050,624},{687,622},{1832,0},{1856,0},{1068,637},{1909,118},{30,638},{1903,112},{1892,0},{1887,235},{1898,0},{708,633},{1884,640},{1877,0},{1817,0},{39,631},{1809,158},{1098,646},{1512,648},{1941,367},{1089,645},{1080,643},{1949,0},{679,637},{1925,0},{1934,0},{1928,0},{1951,120},{1967,0},{1972,655},{1954,115},{1973,0},{1961,0},{1964,0},{1958,0},{1904,0},{1980,249},{1979,0},{21,661},{24,636},{1991,0},{1988,0},{1548,671},{2000,0},{2009,0},{756,667},{1997,0},{345,651},{2018,0},{2033,0},{1131,674},{2026,107},{360,650},{2039,0},{1569,680},{2045,0},{2047,107},{2050,108},{321,675},{2054,0},{2060,0},{2057,0},{57,683},{2071,103},{321,682},{2078,0},{804,693},{2075,0},{2086,120},{2090,0},{2099,0},{12,690},{2085,91},{57,700},{2104,108},{2107,703},{2113,119},{2105,0},{2121,91},{2120,0},{2117,0},{2114,0},{2123,0},{2126,0},{336,713},{63,709},{2106,703},{360,695},{2147,0},{2155,110},{2142,289},{2150,0},{2153,0},{2156,0},{2157,292},{42,721},
{2168,0},{2171,0},{2179,560},{2162,0},{1683,724},{2176,722},{2098,123},{2182,728},{2180,0},{2187,414},{2186,0},{891,731},{2197,299},{60,734},{2198,0},{2216,0},{906,737},{2210,0},{2219,0},{339,740},{2225,0},{2228,0},{2223,743},{2234,0},{2232,176},{2263,115},{2266,117},{2269,123},{2275,102},{2267,0},{2272,123},{2278,121},{336,760},{2284,117},{30,762},{2297,0},{2292,148},{2289,458},{2285,0},{2271,155},{2262,147},{2276,0},{2299,112},{2279,0},{2300,0},{2270,0},{1818,767},{1833,769},{2311,108},{1827,771},{2328,161},{21,774},{2321,0},{2342,0},{357,777},{2339,0},{2327,0},{2317,117},{2335,124},{36,786},{2351,0},{2336,0},{2357,0},{33,781},{2348,0},{3,796},{2381,0},{2312,0},{2384,0},{2366,0},{2369,0},{2376,635},{1917,797},{2363,0},{2398,106},{2404,116},{2417,0},{3,772},{2429,0},{6,807},{2387,0},{2396,0},{2420,0},{2402,0},{2412,802},{2411,0},{2444,0},{2447,0},{2452,653},{2453,0},{2441,0},{1963,813},{2435,0},{2432,0},{2338,248},{2454,656},{2438,0},{2473,113},{2464,114},{2475,822},{2487,159},{2498,0},{18,799},{2492,0},{2470,815},{2490,662},{2501,0},{2010,834},{2472,176},{2520,673},{2510,0},{2405,0},{2511,838},{2519,0},{2525,0},{2028,842},{30,821},{2536,112},{2529,678},{2534,0},{2540,0},{2546,0},{336,845},{2551,104},{2553,91},{2558,0},{2061,853},{2064,854},{2570,0},{309,850},{2572,534},{2577,694},{2576,0},{2587,109},{2589,698},{2571,697},{36,864},{2597,0},{2600,0},{2582,0},{2603,0},{2606,0},{327,862},{2608,705},{57,871},{2612,0},{2136,873},{1644,876},{357,875},{2607,874},{2131,872},{2645,0},{2639,0},{2611,115},{2636,0},{2642,0},{39,887},{2598,21},{2650,276},{2651,0},{2669,0},{2175,890},{2654,0},{2684,0},{2666,0},{2677,423},{2690,0},{2687,0},{2693,0},{2676,566},{2699,0},{2694,730},{2181,900},{2705,0},{2711,0},{2712,432},{2720,0},{2729,0},{2731,535},{2734,437},{2738,0},{2733,575},{2744,0},{2745,91},{2749,119},{2752,104},{2750,0},{2755,120},{3,919},{2761,118},{2764,122},{2762,0},{2770,209},{2774,0},{2753,0},{2756,0},{2768,0},{2780,0},{6,931},{2798,0},{2789,0},{2783,0},{2771,0},{3,928},{336,934},{36,935},{2810,0},{2815,339},{363,933},{2813,0},{2765,0},{2834,0},{2352,942},{2825,0},{2846,0},{2842,168},{2797,105},{2792,0},{2822,0},{2838,626},{2835,144},{2819,0},{2861,0},{2850,491},{2370,954},{2849,0},{0,951},{2871,170},{2867,0},{504,947},{1095,959},{2874,956},{2885,0},{2888,0},{738,971},{2457,975},{2924,0},{2898,658},{1518,972},{2899,658},{2903,0},{2909,0},{2895,91},{2904,816},{2893,102},{2460,973},{2845,785},{2934,976},{2937,826},{2943,982},{2481,980},{2957,0},{2953,985},{2875,956},{2954,0},{2469,977},{2814,201},{2926,819},{2964,91},{2963,0},{2962,116},{2972,0},{2892,139},{2969,0},{2944,811},{2505,993},{2978,0},{2935,814},{2987,0},{2984,0},{2996,0},{3008,0},{2895,1001},{2999,0},{3017,0},{3022,256},{3020,0},{3026,0},{3030,849},{3021,384},{3038,0},{3040,103},{3044,0},{3050,0},{3042,689},{3054,91},{3061,860},{3059,0},{3053,0},{3123,420},{3070,108},{3077,0},{3074,0},{3062,0},{3065,0},{3085,105},{3080,0},{324,1023},{21,1031},{3101,0},{3098,0},{3104,0},{439,1031},{345,1035},{3119,0},{3113,0},{3116,0},{3130,122},{2655,1042},{2658,1045},{3132,882},{3122,0},{2170,1048},{3147,401},{3140,0},{2673,1048},{3143,0},{3110,0},{3155,0},{3131,0},{3167,0},{493,1056},{3185,0},{3179,0},{3188,0},{3180,733},{1281,1063},{2205,1064},{33,1056},{3197,0},{3199,908},{2724,1066},{3206,0},{3208,912},{3209,0},{1315,1071},{3213,438},{3221,0},{3223,121},{3228,151},{3222,148},{3219,20},{3226,112},{3236,0},{3232,107},{3239,0},{24,1081},{3227,0},{3241,124},{2304,1086},{3255,158},{9,1084},{3248,0},{2775,1083},{63,1089},{3261,1090},{3266,0},{627,1092},{3281,0},{3292,109},{3296,0},{3287,0},{3231,152},{3238,117},{3284,0},{3330,142},{3319,124},{2373,1108},{3312,952},{0,1080},{3300,164},{3316,1109},{2880,1112},{3329,0},{3308,0},{3350,0},{3247,927},{2889,1115},{3344,0},{3362,0},{3341,0},{3359,0},{3365,0},{3353,0},{3293,0},{3320,0},{3409,1133},{3407,0},{3386,0},{3374,0},{3377,0},{3398,0},{3387,1126},{3404,0},{3383,0},{3440,0},{3432,1141},{3401,0},{3422,0},{3419,0},{3443,0},{3413,0},{3416,0},
{3389,0},{3437,0},{3447,175},{372,1150},{3360,652},{3427,1124},{3403,173},{3396,156},{3446,0},{3458,0},{3453,991},{3451,124},{3473,0},{2988,1156},{3464,0},{3467,0},{3480,1004},{3488,0},{3498,91},{3496,257},{3444,177},{3497,0},{3506,0},{3509,0},{3515,0},{3045,1170},{3517,529},{3524,0},{3527,0},{3531,1022},{3529,1021},{3541,113},{3081,1181},{3556,108},{3090,1186},{3528,1184},{3549,1029},{3563,0},{3566,0},{66,1180},{3581,0},{3577,1036},{3557,0},{3586,720},{3608,0},{3599,0},{3607,1199},{3602,0},{3592,888},{3539,0},{3578,0},{3611,0},{3585,893},{3596,0},{3617,0},{3150,1204},{3627,164},{3591,1054},{3159,1208},{3634,291},{3652,738},{3636,1213},{2707,1215},{3647,0},{3650,0},{3635,0},{3653,0},{1705,1216},{3656,0},{3665,0},{3672,1070},{3680,0},{3682,116},{3686,0},{3692,0},{3697,119},{3695,0},{3689,0},{3703,157},{3,1235},{3685,150},{3711,159},{3710,0},{3715,605},{3696,151},{3704,0},{3725,0},{3726,1091},{3722,0},{3731,0},{3744,943},{3743,0},{3734,0},{3719,0},{3758,0},{3753,1103},{3760,150},{3750,1101},{3767,0},{3785,0},{3770,0},{3773,0},{3776,0},{3714,808},{3782,0},{3779,0},{3737,0},{3761,0},{3788,0},{3749,0},{3315,1263},{3799,1267},{3390,1271},{3393,1272},{3803,0},{3819,983},{2484,1269},{15,1274},{3844,117},{1530,1278},{3830,0},{519,1283},{0,1275},{2493,1280},{3426,1279},{1992,1284},{3848,0},{3864,1289},{3459,1294},{3876,1291},{3816,1131},{3408,1287},{3860,0},{2922,1293},{3902,0},{3896,0},{3898,1303},{3893,0},{3887,0},{3904,105},{3890,0},{3911,0},{3000,1308},{3899,0},{3913,1306},{3920,0},{3929,0},{3941,0},{3937,1311},{3938,0},{351,1314},{3935,0},{3955,1319},{3956,0},{1165,1317},{3951,140},{3970,1322},{3973,539},{3968,0},{3971,0},{3977,0},{3989,0},{3986,0},{3979,120},{3983,0},{3980,0},{3990,1190},{3972,711},{3573,1331},{3998,0},{3999,1196},{4003,280},{57,1335},{4010,0},{4029,1207},{4002,407},{4025,0},{4011,1338},{4032,1347},{4037,0},{2686,1348},{4055,0},{4052,0},{4046,0},{4049,0},{2692,1351},{4057,1353},{4067,0},{1704,1357},{2706,1356},{4074,419},{4056,1353},{4077,905},{4082,0},{4064,0},{3201,1362},{4091,0},{4097,0},{450,1366},{4106,0},{3699,1370},{4118,0},{4120,930},{4133,0},{4124,0},{4096,124},{4130,0},{4142,0},{4105,167},{108,1378},{4143,1246},{4115,0},{4121,0},{3762,1385},{4172,0},{4151,0},{4168,962},{4169,0},{450,1400},{4166,0},{3354,1391},{4194,1397},{4183,1393},{4190,0},{4185,1265},{1528,1405},{4211,0},{4214,0},{4226,0},{3798,1407},{4232,0},{4220,0},{4179,1394},{4217,0},{4229,0},{4247,0},{4254,1290},{4244,0},{4248,1154},{4253,0},{4238,0},{4280,0},{4250,0},{4262,0},{4256,0},{4268,0},{4265,0},{4225,1411},{3829,1423},{4274,0},{3474,1430},{4297,124},{4293,1433},{4288,999},{4287,1163},{4308,1434},{4312,844},{4313,0},{3912,1438},{4263,1157},{4260,994},{4266,1298},{372,1432},{4324,848},{4329,142},{4326,1444},{4323,1011},{4337,0},{4336,1016},{4342,1017},{4338,1319},{4343,0},{4346,0},{4352,0},{4356,1451},{4360,708},{4369,114},{4362,1455},{4370,0},{4371,1189},{3121,1459},{4382,0},{51,1458},{4359,877},{4385,0},{4379,0},{4390,1200},{4391,0},{4397,0},{4394,0},{4412,0},{4406,0},{4403,0},{4415,0},{4420,1471},{4431,1475},{3174,1474},{3171,1476},{4438,1354},{4448,0},{4445,0},{4451,0},{4457,0},{4372,1189},{4454,0},{4437,1487},{3205,1488},{4466,0},{0,1490},{4475,0},{105,1492},{4114,1493},{4486,937},{4125,1494},{4137,1497},{4481,0},{3289,1499},{4495,1245},{4515,1107},{4485,1099},{4508,0},{4152,1500},{4504,1503},{3288,1499},{4511,0},{4505,0},{4520,0},{4496,0},{4519,1114},{4530,1123},{4176,1507},{4522,1392},{4540,1135},{2959,1518},{4547,0},{4535,0},{4541,0},{4553,0},{2958,1518},{2004,1526},{4544,0},{4577,0},{4568,0},{4233,1521},{4239,1524},{4581,1419},{3855,1523},{4589,0},{3906,1530},{4595,0},{4552,1404},{2991,1533},{4275,1532},{4284,1538},{3477,1536},{4622,0},{4621,1002},{3441,1537},{3921,1535},{4625,0},{4617,1305},{4633,1309},{4640,0},{4639,1162},{4637,0},{4629,1534},{4649,0},{4650,1009},{4643,0},{4646,0},{4655,0},{4632,1439},{4667,0},{4664,0},{4670,0},{4679,0},{4676,0},{802,1561},{4673,0},{4680,1173},{1179,1561},{4687,691},{4691,0},{4692,1178},
{4686,861},{1164,1565},{4386,1574},{3547,1566},{4703,0},{4706,0},{4718,0},{4712,0},{3546,1566},{4708,123},{30,1571},{4730,0},{4727,0},{4720,274},{4719,398},{4732,1198},{4709,0},{3603,1578},{4743,1206},{4398,1582},{4740,1340},{4731,1346},{4009,1582},{4752,1585},{4763,0},{4419,1586},{4772,0},{4766,0},{4769,0},{2721,1593},{3657,1592},{4782,1361},{4785,1597},{4775,0},{4796,0},{3666,1600},{4805,0},{4101,1602},{4813,939},{4811,0},{4820,0},{4817,0},{4812,1111},{4512,1608},{3748,1607},{4831,795},{4828,1383},{4161,1613},{4846,961},{4844,0},{4835,0},{4838,0},{4857,1268},{4527,1621},{4860,1399},{4830,970},{4854,1617},{4845,1122},{4823,0},{4827,1508},{4850,0},{4868,0},{4873,1514},{4871,0},{4560,1630},{3429,1625},{4887,1277},{4879,1627},{763,1649},{4918,839},{4528,1621},{4878,1515},{4898,0},{4916,0},{4895,0},{4902,1528},{4910,0},{4919,0},{4913,0},{4872,1633},{4920,1642},{4925,0},{4931,0},{3430,1625},{4937,0},{4934,0},{4943,0},{4944,1161},{4947,379},{4955,0},{4940,0},{4961,0},{4972,1008},{4963,679},{4965,1310},{4986,1661},{4964,0},{4982,0},{4971,1167},{4995,1440},{4994,0},{3948,1671},{5007,1668},{5012,0},{5021,0},{5018,0},{3960,1675},{5023,1175},{5024,0},{5030,0},{5033,0},{4348,1678},{5041,265},{5034,1449},{5040,391},{5038,1179},{3582,1683},{5063,0},{5059,884},{5057,0},{5039,0},{5072,0},{5078,0},{5079,155},{5084,0},{5075,0},{5058,1052},{5093,0},{5090,0},{5077,1469},{5096,0},{5099,0},{5087,0},{5102,0},{5108,0},{3642,1705},{4081,1707},{5123,0},{5120,0},{4789,1708},{3661,1706},{5129,0},{5126,0},{5138,0},{4107,1713},{5144,0},{4488,1716},{5147,0},{5152,1102},{5162,0},{5159,0},{5171,0},{5164,1113},{5173,1262},{5168,0},{5177,0},{5174,0},{5151,1264},{5181,1728},{5204,0},{5195,0},{5198,0},{5189,0},{5192,0},{5210,0},{4548,1737},{5201,0},{4206,1735},{5163,1270},{4884,1738},{5219,0},{4557,1740},{5234,0},{5170,1614},{5225,0},{5236,1746},{5231,0},{5228,0},{5237,0},{4626,1755},{5246,0},{5250,1534},{5242,1752},{5270,0},{5247,1751},{5262,1003},{5259,1427},{5280,1761},{4950,1757},{5275,1005},{4305,1762},{5282,0},{5258,0},{5297,0},{5289,1768},{5271,1658},{5298,1767},{5304,1767},{5294,0},{5309,0},{5315,0},{5312,0},{4656,1767},{5274,1164},{4989,1774},{5319,847},{5327,0},{5318,0},{5329,1168},{5330,0},{5335,685},{5339,0},{5336,0},{5343,1782},{5353,1783},{5351,0},{5355,1321},{5358,1787},{5372,0},{5369,0},{5375,0},{5381,0},{5067,1794},{5387,0},{5071,1792},{5391,1342},{5394,1792},{5402,0},{5411,0},{5406,1801},{5397,1469},{4416,1805},{5386,1579},{5420,0},{5419,1700},{5109,1811},{5438,0},{5436,1355},{4458,1814},{3660,1815},{5450,0},{4788,1819},{5380,1339},{5453,0},{5465,0},{5467,1243},{5466,1382},{5471,0},{5477,0},{5176,1830},{5478,1827},{5489,0},{5484,1726},{5504,0},{5499,1401},{5496,1830},{5507,0},{5528,0},{5517,1840},{5511,1838},{5537,0},{5529,1836},{5476,1831},{5534,0},{5540,0},{5546,0},{5558,0},{5552,0},{4905,1851},{5559,1854},{5565,1746},{5545,1744},{5568,1759},{5574,1757},{5591,0},{5588,0},{5585,0},{5579,0},{5600,0},{5603,0},{4935,1868},{5578,1861},{5594,0},{5241,1869},{5597,0},{5622,1553},{5599,1659},{5610,1875},{5308,1878},{5628,1770},{5642,0},{4969,1863},{5570,0},{5639,0},{5648,0},{4669,1885},{5645,0},{5001,1885},{5658,1315},{5011,1887},{5340,1887},{5667,855},{5675,0},{5352,1892},{5672,0},{5681,0},{5365,1894},{5043,1895},{4705,1896},{5046,1896},{5691,1796},{5705,0},{5694,1339},{5699,0},{5700,1579},{5711,0},{5708,0},{5712,1905},{5723,0},{5098,1906},{5720,0},{5726,0},{5730,1810},{5729,0},{5728,1588},{5738,0},{5734,1908},{5684,0},{4435,1912},{4440,1913},{5744,0},{5747,0},{5750,0},{5454,1917},{5756,0},{5455,1917},{5759,0},{5740,1480},{5764,1239},{5768,0},{5763,1386},{5773,1388},{5771,0},{5775,1831},{5767,1824},{5780,0},{5783,0},{5789,0},{5779,1927},{5772,1512},{5795,0},{5798,0},{5819,0},{5810,0},{5818,1846},{5820,1937},{5807,0},{5803,1847},{5541,1934},{5547,1942},{5816,0},{5840,0},{5835,1944},{5838,1652},{5843,0},{5846,0},{4968,1951},{5859,1954},{5849,0},{5852,0},{5619,1961},{5882,0},{5873,0},{5876,0},{5616,1956},{5865,1549},{5837,0},{5890,1772},{5888,0},
{5910,1666},{4929,1969},{5900,0},{5894,0},{5906,0},{5896,1881},{5331,1971},{5889,1884},{5918,0},{5895,1973},{5927,0},{5924,0},{5929,1779},{5930,0},{5933,0},{5936,0},{5942,0},{5704,1987},{5954,0},{5956,1570},{5957,0},{5960,0},{5963,0},{5975,0},{5971,1695},{5969,0},{5979,1992},{5421,1995},{5984,0},{5733,1998},{5970,1809},{5424,1997},{6000,1704},{5999,0},{5951,0},{6017,0},{4434,2002},{6011,0},{5364,2004},{6020,0},{5439,2007},{6024,2009},{5451,2009},{6032,0},{6047,0},{6048,1824},{6053,0},{6056,0},{6062,0},{6065,0},{6064,1835},{5523,2024},{6046,1718},{6080,0},{6055,1928},{6066,2023},{6081,2028},{6087,1941},{6093,2033},{5557,2032},{6098,0},{6104,0},{6110,0},{6107,0},{4623,2038},{5856,2041},{6122,0},{6134,0},{5613,2046},{6131,0},{6158,0},{6155,0},{6094,1935},{6164,0},{5550,2053},{6173,0},{6185,0},{5649,2058},{5917,2062},{6188,0},{6191,0},{6197,0},{6198,2067},{6207,1888},{6213,2070},{6216,1982},{5064,2077},{6228,1684},{6225,2074},{5964,2078},{4749,2081},{6241,1210},{5412,2079},{6248,0},{5989,2082},{6242,0},{6251,0},{6257,0},{6260,0},{6263,0},{6266,0},{6250,2001},{6284,0},{6278,0},{6226,1984},{6296,0},{6033,2099},{6300,1718},{6305,0},{6309,1928},{6315,1933},{5790,2104},{6326,0},{6325,1936},{6331,1938},{6335,0},{6323,0},{6341,0},{5829,2116},{6338,0},{6344,0},{6332,0},{6321,2117},{5580,2119},{5571,2118},{6362,0},{6365,0},{6366,2045},{6144,2123},{5631,2125},{6372,2047},{6386,0},{5901,2126},{6392,0},{6401,0},{6192,2135},{6403,2133},{6416,0},{6415,2068},{6419,0},{6422,0},{5950,2141},{6434,0},{6431,0},{6427,2073},{6428,0},{6437,0},{6442,1994},{6440,0},{6446,0},{6443,0},{6452,0},{6453,1210},{5988,2149},{6003,2152},{6425,0},{6459,2089},{6473,0},{6477,2095},{6482,0},{6483,1599},{6488,0},{5758,2162},{6491,0},{6057,2164},{6497,0},{6503,0},{6500,0},{6511,2112},{6504,2030},{6102,2172},{6531,2037},{6508,2167},{6519,2176},{6524,0},{6510,2175},{6542,0},{6539,0},{6537,2042},{6536,0},{5877,2181},{6540,2050},{6549,2049},{6547,1964},{6554,0},{6557,0},{6385,2184},{6558,2127},{6566,0},{6546,2059},{6163,2185},{6402,2190},{6575,0},{6184,2188},{6578,0},{6579,2068},{6584,0},{6589,1890},{6588,1981},{6597,2198},{6603,2073},{6602,0},{6613,1701},{6609,2205},{6618,2084},{6626,0},{6629,0},{6632,0},{6638,0},{6270,2211},{6610,2148},{6472,2212},{6039,2217},{5103,2204},{6306,2219},{6662,0},{6327,2221},{6076,2220},{6507,2222},{6677,0},{6680,0},{6674,0},{6683,0},{6695,0},{6686,0},{6689,0},{5874,2232},{5844,2233},{6704,0},{6718,1968},{6710,0},{6719,0},{6713,0},{6714,2055},{6731,0},{6387,2241},{6561,2240},{6737,0},{6396,2244},{6743,0},{6755,0},{6760,1891},{6761,0},{6764,0},{6767,0},{6601,2255},{6770,0},{6782,0},{6776,0},{6779,0},{6462,2261},{6465,2262},{6468,2263},{6797,0},{6639,2264},{6800,0},{6809,0},{6806,0},{6749,0},{6812,0},{6075,2271},{6818,0},{6824,0},{6821,0},{6319,2270},{6117,2276},{6834,2279},{6843,2280},{6817,2115},{6851,0},{6848,0},{6549,2286},{6867,2056},{6844,2280},{6861,2060},{6726,2288},{6878,0},{6828,2189},{6875,0},{6884,0},{6744,2295},{6585,2296},{6894,1979},{6771,2300},{6606,2302},{6905,0},{6912,1587},{6909,2305},{6923,0},{4774,2306},{6010,2307},{6926,0},{6474,2309},{6932,0},{6920,0},{6939,2312},{6318,2315},{6950,0},{6345,2317},{6825,2318},{6965,0},{6962,0},{6974,0},{6968,0},{6971,0},{6975,2326},{6973,2322},{6983,0},{6984,2290},{6876,2329},{6993,2329},{6992,0},{6408,2334},{6411,2335},{7010,0},{7013,0},{7008,2194},{6583,2336},{7016,0},{7019,0},{7022,0},{7031,0},{7028,0},{6279,2344},{7036,2343},{6801,2346},{7042,2311},{7046,0},{6933,2347},{5130,2350},{7053,2159},{7058,0},{6513,2353},{7065,2320},{7064,0},{7067,0},{7068,2235},{7074,2359},{6393,2363},{6879,2367},{7094,0},{7083,2332},{7097,0},{7106,0},{7109,0},{6942,2368},{6756,2370},{7114,2297},{7118,0},{7105,2249},{6891,2371},{6897,2374},{7023,2375},{7129,2207},{6621,2376},{6273,2378},{7035,2377},{7142,0},{7137,2267},{7149,2215},{7157,0},{7139,0},{7150,2215},{7154,0},{7158,2095},{6669,2387},{7166,0},{6690,2390},{7169,0},{7173,2357},{7176,2284},{7181,0},{7182,2333},{6739,2395},{7187,0},{7197,2249},{7205,0},
{7201,2250},{6750,2400},{7208,0},{7209,2404},{7217,0},{7220,0},{6592,2407},{7226,0},{7232,0},{7238,0},{7235,0},{7146,2413},{7244,0},{7223,0},{7247,0},{7152,2413},{5133,2416},{7174,2357},{7260,2008},{7265,0},{7267,2277},{6820,2421},{7266,2277},{7271,0},{7277,0},{7280,0},{7284,2396},{6738,2430},{7289,0},{7295,0},{7299,2432},{7304,0},{7227,2440},{6642,2443},{7047,2442},{7319,0},{7334,0},{6591,2446},{7341,2375},{7346,0},{7349,0},{6037,2449},{7353,2009},{7352,0},{6477,2443},{6957,2452},{7362,2453},{7367,0},{7368,2285},{7080,2457},{7083,2458},{7369,2285},{7382,0},{7377,2397},{7391,0},{7392,2435},{7397,0},{7400,0},{7401,2445},{7407,2442},{7308,2468},{7218,2468},{7412,0},{7413,2441},{7362,2424},{7424,0},{6036,2473},{7379,0},{7377,2361},{7425,1820},{7433,0},{7434,2453},{7437,2424},{7445,0},{7436,0},{7451,0},{7454,0},{7386,2485},{7460,0},{7461,2464},{7464,2487},{7467,2441},{6288,2490},{7478,0},{7484,0},{7488,2417},{7499,0},{7493,0},{7505,0},{7278,2500},{7506,1489},{6042,2503},{7514,0},{7517,0},{7446,2506},{7521,2427},{6993,2508},{7098,2508},{7527,2506},{7446,2507},{7530,2464},{7538,0},{7541,0},{7544,0},{7547,0},{7551,2495},{7554,2349},{7560,2507},{7568,0},{7569,1364},{7575,2480},{7581,2480},{7592,0},{7589,0},{7595,0},{7601,0},{7596,2480},{7599,2435},{7602,2373},{7308,2535},{7143,2536},{7479,2535},{6291,2537},{7617,2419},{7622,0},{7038,2536},{7587,2521},{7083,2541},{6024,2537},{7626,176},{7629,2526},{7584,2544},{7638,2332},{7641,2461},{7647,2427},{7119,2548},{7661,0},{7650,2438},{7664,0},{7667,0},{7668,2442},{7671,2453},{7676,0},{7679,0},{7682,0},{7685,0},{7658,0},{7691,0},{7191,2564},{7692,2398},{7697,0},{7704,2534},{7473,2569},{7614,2571},{7710,2495},{6648,2572},{7047,2569},{7719,2519},{7725,2417},{7728,2332},{7731,2288},{5760,2578},{7712,0},{7737,2438},{7086,2580},{7746,2545},{7743,2459},{7749,2329},{7754,0},{7757,0},{7760,0},{7766,0},{7767,2445},{7775,0},{6988,2592},{6727,2593},{7790,0},{7404,2595},{7793,0},{7796,0},{7799,0},{7800,2511},{7803,2435},{7806,2516},{7809,2418},{7812,1820},{7817,0},{6801,2606},{7823,0},{249,2608},{252,2608},{225,2608},{222,2608},{7830,2609},{7404,2609},{7833,2427},{7698,2613},{7844,0},{7850,0},{7856,0},{7146,2619},{252,2621},{7868,0},{249,2621},{225,2621},{7871,0},{222,2621},{7874,0},{2235,2625},{375,2625},{2256,2625},{7880,0},{7884,2506},{7647,2630},{7886,0},{7701,2630},{7893,2472},{7889,0},{7596,2630},{7890,2360},{3669,2632},{7446,2630},{7901,0},{7904,0},{7913,0},{7910,0},{7919,0},{7925,0},{7928,0},{7931,0},{7932,2495},{7937,0},{7940,0},{7946,0},{7941,2484},{7949,0},{7761,2650},{7958,0},{7964,0},{7961,0},{7955,0},{7965,2419},{7914,2657},{7977,2640},{7980,578},{7836,2664},{7791,2665},{8001,2666},{8004,2498},{8007,2590},{8009,0},{8010,2450},{7722,2673},{8016,1489},{7491,2671},{8024,0},{8011,2476},{8030,0},{8033,0},{7887,2678},{8039,0},{8042,0},{8036,0},{8045,0},{8048,0},{8054,0},{8063,0},{8060,0},{8057,0},{8069,0},{7239,2688},{393,2690},{2235,2690},{375,2690},{279,2691},{375,2691},{279,2690},{2256,2690},{8078,0},{8076,2551},{8079,2427},{8082,2506},{7761,2695},{8088,2519},{8094,2457},{8103,2480},{8097,2507},{8100,1225},{225,2702},{252,2702},{249,2702},{222,2702},{8117,0},{8114,0},{8120,0},{8129,0},{8132,0},{7881,2692},{8133,2485},{7530,2711},{7650,2711},{8138,0},{7453,2713},{7288,2714},{8147,0},{8150,0},{8162,0},{7360,2719},{7363,2717},{7087,2718},{8165,0},{8168,0},{8171,0},{8174,0},{8175,580},{8192,0},{8198,0},{8195,0},{8201,0},{7845,2734},{8207,0},{252,2736},{7851,2737},{8214,2218},{8225,0},{8228,0},{4092,2739},{8222,0},{222,2736},{7905,2743},{249,2736},{225,2736},{8025,2746},{8243,0},{7989,2748},{7389,2749},{8250,2437},{7656,2751},{7210,2752},{8251,2437},{249,2753},{8264,0},{8267,0},{8265,2683},{249,2760},{8279,0},{225,2753},{252,2758},{222,2757},{8285,0},{8277,176},{225,2757},{222,2760},{252,2757},{222,2758},{225,2760},{249,2757},{222,2753},{225,2758},{252,2760},{252,2753},{249,2758},{8294,0},{8291,0},{8297,0},{7255,2767},{8309,0},{8306,0},{8312,0},{8396,0},{8315,0},{225,2772},{8321,0},{7770,2775},
{8330,0},{8345,0},{8333,0},{8342,0},{8339,0},{8334,913},{8351,0},{249,2772},{252,2772},{222,2772},{8384,0},{8378,0},{8372,0},{8369,0},{8375,0},{8354,0},{8381,0},{8363,0},{8360,0},{8357,0},{8366,0},{375,2797},{393,2797},{2235,2797},{279,2797},{2256,2797},{8397,2462},{8400,2464},{8403,2438},{222,2802},{252,2803},{8414,0},{8420,0},{7719,2807},{7413,2807},{8421,2447},{7554,2807},{7488,2807},{7668,2807},{7617,2807},{8427,2811},{8346,2810},{8424,2656},{222,2803},{225,2802},{8444,0},{249,2803},{225,2803},{249,2802},{8447,0},{8450,0},{8460,2821},{8457,2818},{8451,2795},{8478,2744},{7974,2822},{8235,2827},{8472,2825},{8489,0},{8486,0},{8492,0},{8495,0},{8498,0},{252,2802},{7120,2834},{7300,2833},{7318,2835},{8510,0},{8513,0},{8415,2838},{8612,0},{8517,2697},{8522,0},{8534,0},{8525,0},{8531,0},{8528,0},{8540,0},{8537,0},{8286,2849},{8541,2848},{8552,0},{8567,0},{8561,0},{8555,0},{8564,0},{8571,2823},{8586,2861},{8589,2864},{8574,2859},{8601,580},{8615,0},{8618,0},{225,2873},{8622,2875},{8634,2756},{7860,2882},{7395,2881},{8649,2301},{8043,2879},{7674,2880},{7899,2884},{8109,2885},{8650,2341},{8663,0},{8660,0},{252,2873},{222,2873},{8670,2891},{8580,2893},{8684,0},{8690,0},{8687,0},{8693,0},{249,2873},{222,2899},{249,2898},{8702,0},{8708,0},{8723,0},{8714,0},{8717,0},{8711,0},{8720,0},{8726,0},{8729,0},{225,2898},{252,2899},{8732,0},{225,2899},{222,2898},{249,2899},{252,2898},{8741,0},{8744,0},{279,2912},{285,2911},{8750,0},{375,2919},{279,2918},{393,2919},{279,2919},{8752,2625},{8847,77},{8752,2950},{375,2918},{393,2917},{393,2918},{285,2918},{279,2917},{279,2911},{375,2912},{393,2911},{2235,2912},{285,2919},{2256,2912},{375,2911},{8765,0},{393,2912},{8768,0},{8771,0},{7353,2925},{7425,2925},{7158,2925},{7053,2925},{7506,2925},{7260,2925},{7569,2925},{6939,2925},{7626,2925},{8784,2375},{8781,2441},{8778,2417},{8790,2519},{8787,2349},{7686,2925},{8793,2419},{8796,2442},{8801,0},{249,2935},{8804,0},{222,2935},{252,2935},{8810,0},{8816,0},{8819,0},{8813,0},{8831,0},{8828,0},{279,2944},{8843,0},{8858,0},{8837,0},{375,2944},{8846,0},{276,2951},{8840,0},{8861,0},{8879,0},{8864,0},{285,2944},{8870,0},{8867,0},{8876,0},{8873,0},{8882,0},{393,2944},{8885,0},{1731,2951},{8897,0},{8888,0},{1761,2951},{225,2935},{8891,0},{8898,2774},{8901,2924},{8918,0},{8906,0},{8909,0},{8915,0},{8912,0},{8924,0},{8927,0},{8921,0},{8930,0},{6655,2980},{7039,2978},{7147,2981},{6802,2979},{7228,2977},{8948,0},{7141,2983},{7423,2984},{8556,2985},{8966,0},{8969,0},{8960,0},{8664,2987},{8388,2990},{8979,2856},{8973,2892},{8823,2992},{8982,2995},{8990,0},{9002,0},{9009,2866},{8991,2725},{9003,2727},{9008,0},{9024,2661},{9033,3010},{9023,0},{9027,2868},{9018,2867},{9041,0},{9042,2728},{9045,85},{9054,85},{9059,0},{8628,3021},{9066,2901},{7764,3025},{7233,3026},{7959,3023},{7782,3024},{7572,3027},{7545,3030},{6774,3029},{8160,3028},{8436,3031},{9088,2304},{9101,0},{9104,0},{9110,0},{9107,0},{9098,0},{9111,2813},{225,3038},{222,3039},{252,3039},{222,3038},{249,3038},{252,3038},{225,3039},{249,3039},{9120,3044},{9123,2940},{9141,3048},{9135,3046},{9149,0},{9168,3058},{9179,0},{9188,0},{9191,0},{9194,0},{8892,3065},{9203,0},{9200,0},{9215,0},{9209,0},{9206,0},{9218,0},{9212,0},{9227,0},{9221,0},{9224,0},{9233,0},{9230,0},{225,3081},{222,3079},{252,3078},{249,3080},{252,3079},{249,3082},{252,3081},{225,3082},{225,3079},{249,3078},{249,3081},{249,3079},{222,3081},{222,3078},{225,3078},{225,3080},{252,3080},{222,3082},{9266,0},{9260,0},{9269,0},{9272,0},{9249,1072},{9263,0},{9254,0},{9257,0},{252,3082},{9278,0},{9275,0},{8745,3093},{9284,0},{9287,0},{1323,3096},{1731,3096},{1323,3098},{9293,0},{1731,3098},{1731,3099},{1761,3099},{1761,3098},{222,3080},{279,3103},{375,3104},{9467,0},{9324,2095},{9315,2009},{9318,2159},{9321,1820},{9327,1489},{9336,2312},{9333,2008},{4092,3110},{252,3113},{222,3113},{9342,176},{9368,0},{249,3113},{9365,0},{9374,0},{9386,0},{9371,0},{9356,0},{9347,0},{9392,0},{9350,0},{9398,0},{9380,0},{9353,0},{9377,0},{9359,0},{9389,0},{9362,0},{9395,0},
{9383,0},{225,3113},{9425,0},{9434,0},{393,3142},{279,3104},{285,3145},{285,3103},{393,3146},{279,3146},{9443,0},{375,3142},{279,3145},{285,3104},{393,3103},{285,3146},{285,3142},{393,3145},{1323,3150},{1731,3150},{9449,0},{9446,0},{9455,0},{375,3145},{375,3103},{393,3104},{9458,0},{375,3146},{9461,0},{9464,0},{279,3142},{9470,0},{9473,0},{4798,3160},{5440,3159},{3676,3163},{3670,3162},{6043,3161},{5452,3165},{6016,3164},{2233,3166},{9506,0},{9509,0},{9507,84},{9503,0},{9540,3135},{9543,3136},{8667,3178},{9399,3170},{9515,0},{9414,3172},{9519,3175},{9420,3184},{9564,3187},{9522,3042},{9549,3139},{9537,3182},{9508,3137},{9735,23},{9508,3246},{9129,3185},{9528,3177},{9569,0},{9507,74},{9429,3190},{9578,0},{285,3191},{375,3191},{9587,0},{9593,0},{9581,0},{9590,0},{393,3191},{9584,0},{9602,0},{9611,0},{9605,0},{9599,0},{9608,0},{9614,0},{9617,0},{9594,578},{9620,0},{9623,0},{9635,0},{9641,0},{9638,0},{279,3191},{9647,0},{9656,0},{9474,2877},{9657,3220},{9668,0},{9665,0},{9674,0},{9671,0},{9677,0},{249,3227},{249,3226},{252,3227},{9684,83},{222,3226},{222,3227},{9687,3134},{9684,74},{9696,3186},{225,3227},{252,3226},{225,3226},{9684,84},{570,3230},{9695,0},{9684,75},{9729,3240},{9744,3241},{183,3247},{9747,3244},{9702,3233},{9705,3242},{9717,3238},{9755,0},{396,3227},{9764,0},{9741,73},{384,3230},{399,3247},{9767,0},{9783,3050},{9774,2999},{8178,3256},{9782,0},{9594,3253},{9771,2998},{9786,3051},{9162,3264},{9156,3263},{9809,0},{9171,3267},{2238,3247},{2253,3247},{9827,0},{9306,3278},{9831,3020},{9989,0},{252,3281},{225,3284},{222,3283},{225,3282},{222,3280},{252,3284},{225,3280},{9860,0},{9857,0},{9863,0},{252,3282},{249,3281},{225,3283},{249,3284},{9869,0},{225,3281},{252,3280},{222,3281},{222,3282},{249,3283},{249,3280},{9866,0},{222,3284},{9878,0},{9884,0},{249,3282},{9896,0},{9881,0},{252,3283},{9708,3291},{9887,0},{9893,0},{9872,0},{9890,0},{9920,0},{9911,0},{9914,0},{9902,0},{390,3284},{9917,0},{9908,0},{9923,0},{9905,0},{9929,0},{9935,0},{9941,0},{9936,93},{8595,3310},{9837,3053},{9945,3055},{9948,3317},{9971,0},{9936,73},{9968,0},{9936,579},{9977,0},{9980,0},{9983,0},{9984,3276},{9936,583},{10001,0},{10010,0},{10007,0},{10004,0},{10016,0},{9998,0},{10013,0},{10037,0},{10034,0},{10031,0},{10028,0},{9897,3353},{10055,0},{10049,0},{10064,0},{10046,0},{10052,0},{10058,0},{10043,0},{279,3359},{10073,0},{9558,3356},{10082,0},{10092,3250},{10085,0},{375,3331},{375,3371},{10112,0},{393,3372},{375,3368},{279,3373},{375,3374},{393,3366},{279,3368},{393,3368},{285,3366},{393,3331},{279,3331},{375,3373},{393,3374},{285,3373},{375,3372},{279,3371},{279,3374},{375,3366},{10128,63},{10134,73},{393,3373},{9960,3379},{10145,0},{10170,3060},{10142,0},{393,3371},{10148,0},{10158,193},{1731,3385},{1323,3383},{285,3372},{1731,3383},{1323,3387},{1731,3387},{1323,3385},{285,3374},{279,3366},{279,3372},{285,3371},{285,3368},{10173,193},{285,3331},{10020,3396},{10038,3398},{9711,3392},{10179,3341},{10017,3394},{10185,3397},{10089,3404},{10209,3358},{10215,3407},{10203,3400},{10065,3402},{9696,3406},{10227,3410},{10197,3365},{10224,3362},{10245,3252},{10235,0},{279,3416},{10253,0},{10107,3412},{9924,3414},{285,3416},{375,3416},{10256,0},{10262,0},{10280,0},{10277,0},{10268,0},{10271,0},{10265,0},{10274,0},{10298,0},{10286,0},{10295,0},{10023,3392},{10283,0},{10179,3237},{10289,0},{10292,0},{10301,0},{10304,0},{10310,0},{10307,0},{10313,0},{10314,579},{10322,0},{10319,0},{393,3416},{1323,3445},{1731,3445},{1323,3441},{10328,0},{10332,395},{10329,2766},{10374,441},{10347,441},{10346,0},{10340,0},{1731,3441},{10343,0},{10358,0},{10352,0},{10355,0},{10361,0},{10364,0},{10367,0},{10370,0},{10373,0},{10382,0},{10334,0},{10349,0},{10376,0},{10379,0},{10316,0},{10389,3464},{10383,3462},{10395,3466},{10410,3471},{10422,3469},{10239,3472},{10419,3475},{10401,3367},{10406,0},{10451,0},{10448,0},{10440,3481},{10437,3253},{10430,0},{10436,0},{10257,3477},{10455,3484},{10461,3314},{10473,3489},{10464,3479},{9012,3496},{10491,3495},{10482,2660},{10479,3499},
{9015,3492},{9798,3501},{10494,3265},{10509,3502},{1743,3504},{10524,395},{1323,3506},{10517,0},{10544,0},{10541,0},{10529,0},{10536,2920},{10547,0},{10535,0},{10532,0},{10559,0},{10550,0},{1731,3506},{10578,3272},{9183,3525},{9819,3528},{10581,3274},{10526,0},{10593,2997},{10596,3006},{9048,3529},{10613,0},{10607,0},{10610,0},{10619,0},{10616,0},{10628,0},{10622,0},{10625,0},{375,3543},{10640,0},{10647,3490},{9777,3545},{279,3548},{10641,3488},{10650,3375},{10458,3544},{375,3548},{285,3548},{10655,0},{10662,3319},{10673,0},{2241,3543},{10683,3559},{10676,0},{9963,3555},{10682,0},{10614,77},{10670,0},{1752,3543},{393,3548},{10694,0},{2250,3543},{1746,3548},{10697,0},{10712,0},{10730,0},{10731,3578},{1185,3543},{10740,3579},{285,3543},{9837,3582},{10170,3583},{279,3543},{9990,3584},{393,3587},{285,3586},{393,3585},{285,3587},{393,3592},{375,3590},{285,3591},{285,3588},{375,3589},{10808,0},{285,3592},{10781,0},{279,3588},{285,3594},{10785,3318},{10659,3599},{10793,0},{10805,0},{10802,0},{10656,3596},{10814,0},{1737,3594},{8121,3592},{8124,3591},{1185,3586},{10886,0},{10806,395},{375,3588},{393,3588},{1185,3585},{1185,3603},{1185,3589},{9934,3589},{10983,77},{9934,3662},{1185,3587},{10835,0},{1323,3610},{1323,3608},{2241,3590},{1746,3586},{1755,3612},{10829,0},{1758,3588},{279,3585},{10153,3594},{11022,77},{10153,3675},{10815,2691},{10823,0},{10820,0},{375,3587},{1758,3585},{10841,0},{285,3590},{2250,3590},{1323,3603},{10842,395},{10850,0},{279,3587},{285,3589},{10845,3571},{10853,0},{393,3591},{375,3592},{279,3590},{10865,0},{393,3586},{375,3585},{10866,93},{10871,0},{375,3591},{279,3592},{375,3586},{10874,0},{10877,0},{10844,0},{10880,0},{10883,0},{375,3594},{10889,0},{10895,0},{10892,0},{10898,0},{10919,0},{10913,0},{10794,3638},{10907,0},{10925,0},{10904,0},{10901,0},{10910,0},{1185,3647},{10946,0},{10935,3499},{10928,0},{10974,95},{1323,3654},{10971,395},{10959,93},{2244,3663},{10992,93},{10967,0},{10950,125},{10980,95},{10971,579},{10979,0},{10947,3324},{10968,395},{10958,0},{10955,0},{2244,3676},{2247,3663},{11012,0},{11018,0},{11033,0},{1323,3671},{11019,395},{11009,0},{11040,395},{10689,3665},{2247,3676},{11003,0},{11006,0},{11000,0},{1743,3676},{1323,3678},{11057,0},{11054,0},{11045,0},{11046,3568},{11049,395},{11060,0},{11069,0},{11066,0},{11070,3619},{11081,0},{11078,0},{11084,0},{1323,3695},{11091,395},{1323,3699},{11096,0},{11088,395},{11105,0},{11051,0},{11102,0},{11021,0},{11108,0},{11042,0},{11109,3530},{10989,85},{1731,3671},{11028,85},{10970,0},{1731,3704},{1731,3706},{11093,0},{1731,3678},{11090,0},{1731,3695},{1731,3699},{1731,3654},{11126,0},{11130,3640},{11127,3377},{11133,3500},{10479,3720},{10929,3712},{11147,0},{11157,3718},{11148,3268},{11151,3646},{10932,3713},{10521,3724},{1185,3722},{11165,0},{11204,0},{1323,3722},{10698,3731},{11201,0},{11210,0},{11214,3739},{11198,0},{11192,0},{11177,0},{11186,0},{11205,3679},{11189,0},{11183,0},{11180,0},{11213,0},{11225,0},{11241,3573},{11246,0},{11249,0},{11226,3567},{11240,0},{11222,0},{10716,3752},{11267,0},{11237,0},{11259,3520},{11264,0},{11229,3751},{11252,0},{11268,3687},{11271,3574},{11282,0},{11286,3486},{11289,3544},{11298,3765},{11306,0},{9642,3771},{11318,0},{11312,0},{11309,0},{11375,0},{11376,3534},{11322,3494},{11319,3775},{11331,3776},{11342,0},{10743,3778},{11345,0},{11115,3783},{11348,0},{11354,0},{11357,0},{11121,3786},{11363,0},{11369,0},{11372,0},{1731,3722},{10602,3792},{11591,0},{11387,0},{11382,3714},{11381,0},{1323,3798},{11408,0},{11405,0},{10680,3795},{10686,3800},{11393,0},{11399,0},{11169,3796},{11415,3388},{11414,0},{11411,0},{11448,3814},{11451,3517},{11445,3569},{11424,3806},{11430,3812},{11457,3518},{11439,3618},{11423,0},{11433,3744},{11454,3209},{11460,3012},{11481,3523},{11502,3521},{11466,3758},{11463,3522},{11283,3829},{11475,3575},{11499,3691},{11472,3823},{11277,3826},{11517,3838},{11520,3767},{11523,3100},{11529,3845},{11526,3844},{11543,0},{11547,3848},{11550,3779},{11556,3851},{11562,3855},{11574,3788},{11403,3803},
{11588,0},{1323,3865},{1749,3867},{1185,3864},{11600,0},{1737,3874},{11615,0},{1185,3869},{1749,3874},{11627,0},{11618,0},{1185,3873},{11606,0},{1185,3870},{1323,3869},{1323,3873},{1737,3867},{1185,3878},{11628,3809},{11631,3208},{11637,3881},{11646,3883},{11667,3832},{11661,3830},{11658,3210},{11688,3891},{11691,3764},{11685,3898},{11505,3892},{11699,0},{11702,0},{11709,3902},{11717,0},{11720,0},{11723,0},{11726,0},{11729,0},{11732,0},{924,3904},{11738,0},{1737,3915},{11744,0},{11741,0},{1185,3917},{11750,0},{1185,3921},{11774,0},{1323,3921},{11759,0},{11756,0},{1185,3920},{1185,3915},{11768,0},{11787,3885},{11786,0},{11777,0},{11783,0},{11780,0},{11802,3837},{11799,3894},{11817,3936},{11814,3937},{1323,3940},{11810,0},{11819,0},{11795,0},{1185,3941},{11816,0},{11813,0},{11828,0},{1323,3943},{1323,3944},{1323,3945},{1323,3946},{1323,3941},{1323,3947},{1323,3915},{1323,3948},{11798,0},{11849,0},{11855,0},{11850,3953},{11856,3923},{11640,3963},{11885,0},{11484,3960},{11652,3957},{11870,0},{9810,3955},{11864,0},{9813,3959},{11876,0},{11888,0},{11679,3968},{11508,3966},{11793,3964},{11910,3969},{11921,0},{11907,3938},{11894,0},{11933,0},{11909,0},{11912,0},{2259,3990},{11945,0},{11948,0},{11951,0},{11954,0},{11957,0},{11960,0},{11963,0},{11966,0},{11790,3991},{11976,3831},{11979,3888},{12000,3967},{11991,3965},{12003,4002},{11805,4003},{11997,3998},{11670,3995},{11982,3996},{12012,4005},{11808,4004},{12021,3972},{12024,3389},{12014,0},{12017,0},{11990,0},{11703,4011},{12027,3937},{11984,0},{12066,3533},{12045,2662},{12048,2729},{12051,2869},{12054,3017},{12057,3101},{12060,3216},{11658,4003},{12063,3217},{12071,0},{12138,3857},{12072,4025},{11796,4023},{12018,4027},{12078,3524},{12096,4031},{11913,4033},{11808,4033},{12084,4025},{12102,4035},{12108,3620},{12074,0},{12086,0},{12077,0},{12093,3994},{12083,0},{12095,0},{12122,0},{12092,0},{12132,3853},{12135,3856},{12141,3859},{12144,3860},{12147,3861},{11826,4040},{12153,3911},{12150,3210},{12129,3846},{12156,31},{12231,4029},{12084,4054},{12090,4055},{12174,4057},{12177,4035},{12105,4060},{12191,0},{12027,4056},{12123,4056},{12173,0},{12167,0},{12236,0},{12242,0},{12218,0},{12221,0},{12161,0},{12227,0},{12230,0},{12224,0},{11968,4081},{12246,4083},{12168,4084},{12105,4082},{12201,4084},{12255,4084},{12252,4006},{12171,4084},{12254,0},{93,4092},{12306,4035},{12309,4085},{12312,4061},{12306,4087},{12258,4102},{12186,4102},{12315,4057},{12320,0},{12321,4085},{12267,4106},{12318,3931},{12324,3994},{12270,4106},{12326,0},{93,4109},{12214,4110},{12305,0},{12303,4023},{12312,4112},{12333,4112},{12345,4112},{12348,4112},{12336,4114},{12339,4112},{12353,0},{93,4118},{12336,3969},{12362,0},{12368,0},{12365,0},{12359,0},{12338,0},{12336,4035},{12371,0},{93,4124},{12274,4125},{12380,0},{12379,4127},{12390,4004},{12387,4025},{12389,0},{12392,0},{12401,0},{12395,0},{12404,0},{12398,0},{93,4135},{11929,4136},{12413,0},{93,4138},{93,4140},{93,4141},{93,4139},{93,4142},{12429,4040},{12431,0},{93,4144},{12440,0},{12127,4145},{12439,4147},{12446,0},{12438,4126},{12438,4101},{12429,4077},{12399,4063},{12040,4167},{12208,4163},{12452,0},{12449,0},{93,4155},{93,4151},{93,4152},{93,4153},{93,4154},{93,4156},{12118,4157},{93,4159},{12476,0},{12031,4161},{12205,4162},{11938,4160},{12509,0},{12037,4164},{12497,0},{93,4166},{12504,4169},{12512,0},{12303,4158},{12474,4052},{12378,4169},{12378,4158},{12438,4169},{12507,4158},{12438,4158},{12524,0},{11817,4175},{12620,0},{93,4179},{93,4178},{12115,4185},{12193,4180},{12199,4181},{11926,4183},{12112,4182},{12265,4184},{12558,4158},{11935,4187},{12559,4188},{12533,0},{12530,0},{12581,0},{12532,4192},{12568,4188},{12569,0},{12211,4195},{93,4194},{12438,4192},{12590,0},{12591,4148},{12303,4176},{12528,4052},{12531,4191},{12507,4176},{12378,4176},{12558,4101},{12531,4126},{12507,4191},{12573,4052},{12596,0},{12507,4193},{12567,4158},{12531,4176},{12570,4101},{12567,4052},{12531,4101},{12579,4052},{12438,4176},{12602,0},{12570,4052},{12558,4190},{12531,4158},
{12531,4189},{12378,4191},{12600,4101},{12573,4193},{12531,4052},{12531,4193},{12531,4190},{12588,4177},{12558,4191},{12570,4193},{12531,4146},{12378,4190},{12570,4189},{12567,4169},{12474,4193},{12558,4052},{12438,4190},{12570,4176},{12558,4126},{12558,4177},{12438,4193},{12303,4191},{12378,4193},{12438,4191},{12567,4193},{12608,0},{12558,4169},{12474,4176},{12378,4189},{12570,4158},{12570,4169},{12570,4191},{12438,4189},{12474,4191},{12567,4101},{12531,4169},{12303,4193},{12567,4191},{12579,4176},{12558,4146},{12558,4193},{12558,4176},{12567,4176},{12558,4189},{12573,4176},{12304,4192},{12381,4192},{12283,4206},{93,4205},{12651,4225},{11941,4226},{12196,4209},{11923,4208},{12638,0},{12632,0},{12644,0},{12641,0},{12647,0},{12635,0},{12642,4211},{12645,4213},{12559,4219},{12571,4221},{12574,4220},{12653,0},{12656,0},{12571,4224},{12671,0},{12668,0},{12677,0},{12675,4220},{12683,0},{12675,4052},{12692,0},{12438,4217},{12475,4231},{12378,4217},{12303,4217},{12558,4217},{12707,0},{12507,4225},{12438,4225},{12737,0},{12589,4236},{12731,0},{12651,4052},{12718,4244},{12728,0},{12531,4217},{12532,4249},{12579,4217},{12507,4217},{12785,0},{12594,4244},{12762,4177},{12378,4225},{12705,4052},{12573,4217},{12777,4126},{12769,4172},{12767,0},{12516,4256},{12738,4243},{12874,4286},{12570,4217},{12474,4217},{12801,4217},{12567,4217},{12303,4225},{12837,4052},{12651,4176},{12567,4225},{12579,4225},{12858,4291},{12570,4225},{12807,4255},{12768,4190},{12558,4225},{12531,4225},{12474,4225},{12890,0},{12573,4225},{12675,4176},{12893,0},{12896,0},{12282,4207},{12899,0},{12902,0},{12283,4378},{13140,31},{12283,4381},{12963,4302},{12911,0},{12914,0},{12909,4310},{12927,4210},{12924,4304},{12645,4308},{12909,4211},{12636,4307},{12915,4307},{12909,4212},{12642,4310},{12927,4306},{12909,4305},{12639,4304},{12912,4306},{12912,4210},{12941,0},{12944,0},{12951,4222},{12947,0},{12580,4316},{12574,4316},{12956,0},{12942,4319},{12951,4320},{12654,4320},{12908,0},{12963,4176},{12968,0},{13138,4079},{12969,4228},{12378,4302},{12906,4052},{12303,4302},{12976,4324},{12982,4328},{12989,0},{12994,4199},{13018,4332},{13002,4248},{13016,0},{13009,4246},{12559,4337},{12507,4302},{13024,4201},{13015,4262},{12558,4302},{13028,0},{12438,4302},{13057,4269},{12972,4230},{13044,4158},{13037,0},{13049,0},{12567,4302},{12579,4344},{13053,4146},{13052,0},{12714,4329},{12984,4327},{13064,0},{12789,4302},{13070,0},{12573,4302},{12651,4302},{13088,0},{12474,4302},{12603,4341},{13085,0},{13103,0},{12996,4242},{13097,0},{12570,4302},{12732,4302},{12720,4302},{12531,4302},{12867,4356},{12579,4302},{12528,4372},{13092,4362},{12528,4302},{13121,0},{13124,0},{12675,4302},{13131,4095},{13133,0},{13179,4311},{13164,4395},{12528,4413},{12570,4413},{13404,4096},{13152,4212},{13152,4211},{13155,4306},{13152,4310},{12924,4385},{13179,4394},{13158,4391},{13170,4392},{13188,4394},{13173,4310},{13194,4389},{13164,4387},{13194,4312},{13152,4305},{12639,4385},{13197,4312},{13191,4387},{13188,4311},{13155,4210},{13170,4391},{13197,4389},{13158,4392},{13191,4395},{13209,4404},{13214,0},{13229,0},{13226,0},{13217,0},{13203,4319},{12666,4400},{13206,4313},{13218,4223},{13203,4223},{13223,0},{12675,4410},{13151,0},{13235,0},{13241,0},{13244,0},{13242,4171},{13239,4052},{12571,4415},{12568,4416},{13255,4326},{13261,4238},{13258,4216},{13264,4335},{12786,4424},{13279,4263},{13277,0},{13267,4260},{13256,0},{13265,0},{13271,0},{12789,4426},{13285,4287},{12303,4413},{13288,4270},{13292,0},{12651,4431},{13283,0},{13289,0},{12831,4441},{13276,4278},{13304,0},{12573,4437},{13301,0},{13316,0},{13322,0},{12648,4419},{13331,0},{13328,0},{12378,4413},{13268,0},{13300,4363},{13337,0},{12861,4428},{13339,4289},{13341,4189},{13344,4186},{13348,4364},{12474,4413},{13355,0},{12567,4413},{13364,0},{12558,4413},{12438,4413},{13376,0},{12507,4413},{13382,0},{12531,4413},{13385,0},{13391,0},{13392,4193},{12579,4413},{13396,4448},{13343,0},{13119,4448},{12651,4413},{12966,4447},{12573,4413},{13403,0},{12675,4413},
{13230,4413},{12906,4413},{13148,0},{12381,4413},{13125,4413},{13406,0},{13408,4072},{12907,4512},{13437,4387},{13425,4394},{13467,4395},{13431,4389},{13428,4391},{13425,4311},{13428,4392},{13434,4392},{13431,4312},{13479,4389},{13452,4384},{13437,4395},{13446,4485},{13440,4490},{13461,4492},{13458,4470},{13464,4394},{13464,4311},{13479,4312},{13467,4387},{13473,4481},{13488,4491},{13485,4480},{13485,4496},{13446,4490},{13482,4490},{13455,4480},{13443,4490},{13485,4470},{13461,4494},{13455,4492},{13485,4483},{13410,4490},{13491,4494},{13446,4471},{13458,4481},{13476,4490},{13488,4490},{13449,4471},{13461,4470},{13413,4494},{13473,4492},{13446,4491},{13449,4491},{13485,4492},{13461,4481},{13485,4482},{13485,4481},{13449,4490},{13413,4492},{13449,4485},{13413,4480},{13458,4492},{13488,4497},{13446,4486},{13455,4494},{13461,4496},{13449,4497},{13461,4482},{13491,4470},{13491,4481},{13473,4470},{13446,4497},{13449,4486},{13455,4470},{13485,4494},{13458,4494},{13473,4494},{13488,4485},{13458,4496},{13449,4487},{13413,4496},{13455,4481},{13491,4480},{13458,4480},{13473,4480},{13491,4492},{13413,4481},{13461,4480},{13472,0},{13494,4405},{12945,4499},{13209,4499},{13506,4404},{13503,4500},{13511,0},{13529,0},{13521,4318},{13533,4412},{12444,4513},{13539,4171},{13549,4232},{13547,0},{13552,4234},{13555,4240},{13558,4251},{13561,4252},{13565,0},{12813,4523},{13585,4267},{12834,4524},{12978,4526},{13568,0},{13559,0},{13581,4335},{13556,0},{13576,4432},{13570,4271},{13591,4355},{13600,4534},{13589,0},{13597,4435},{12801,4528},{13606,4439},{12696,4516},{12756,4520},{13623,4189},{13634,0},{13627,4540},{12378,4543},{13613,0},{13608,4126},{13615,4280},{13644,4186},{13590,4355},{13616,0},{13648,4450},{13598,0},{12702,4517},{13657,4279},{13577,0},{13251,4515},{13655,0},{13666,4456},{13661,0},{13664,0},{13649,0},{13658,0},{13686,4344},{13667,0},{13699,4462},{12904,4473},{13419,4301},{13706,0},{13711,4569},{13712,0},{13718,0},{13714,4322},{13724,0},{13393,4575},{13725,4464},{13417,4383},{13149,4472},{13739,0},{13754,0},{13745,0},{12303,4512},{13544,0},{13750,4073},{13422,4097},{13423,4053},{13413,4470},{14024,0},{13757,0},{13809,4490},{13773,4588},{13758,4480},{13767,4587},{13779,4485},{13449,4586},{13782,4481},{13776,4586},{13761,4586},{13458,4590},{13770,4588},{13767,4494},{13764,4492},{13446,4588},{13788,4491},{13413,4587},{13773,4486},{13796,0},{13767,4482},{13785,4480},{13791,4480},{13449,4597},{13449,4595},{13788,4486},{13458,4603},{13812,4492},{13761,4605},{13799,0},{13782,4593},{13767,4602},{13812,4470},{13773,4487},{13788,4586},{13805,0},{13791,4470},{13802,0},{13806,4485},{13764,4481},{13782,4482},{13461,4587},{13779,4497},{13791,4494},{13779,4605},{13473,4587},{13767,4481},{13761,4490},{13788,4604},{13788,4597},{13791,4496},{13764,4480},{13758,4481},{13782,4483},{13832,0},{13776,4588},{13413,4603},{13823,0},{13782,4592},{13785,4482},{13826,0},{13461,4593},{13791,4590},{13410,4605},{13485,4587},{13773,4491},{13773,4605},{13776,4486},{13838,0},{13758,4494},{13482,4588},{13782,4480},{13488,4588},{13841,0},{13812,4480},{13776,4597},{13767,4592},{13767,4480},{13782,4494},{13820,0},{13788,4471},{13785,4470},{13782,4492},{13488,4605},{13770,4586},{13767,4593},{13455,4603},{13835,0},{13770,4485},{14243,0},{13829,0},{13788,4595},{13767,4603},{13785,4587},{13868,0},{13862,0},{13788,4495},{13812,4482},{13812,4602},{13491,4587},{13782,4496},{13791,4492},{13413,4602},{13791,4603},{13773,4597},{13812,4592},{13446,4586},{13847,0},{13782,4602},{13410,4588},{13844,0},{13788,4490},{13767,4590},{13461,4592},{13785,4481},{13779,4586},{13473,4602},{13806,4605},{13812,4483},{13812,4591},{13812,4590},{13767,4591},{13788,4497},{13485,4591},{13788,4589},{13874,0},{13865,0},{13773,4471},{13806,4586},{13871,0},{13461,4603},{13812,4481},{13770,4490},{13856,0},{13461,4590},{13853,0},{13776,4497},{13859,0},{13491,4603},{13446,4605},{13782,4587},{13764,4603},{13773,4595},{13850,0},{13806,4588},{13449,4589},{13815,4481},{13785,4494},{13770,4605},{13449,4588},
{13788,4588},{13791,4587},{13919,0},{13779,4490},{13907,0},{13767,4470},{13910,0},{13913,0},{13413,4590},{13916,0},{13767,4492},{13485,4590},{13785,4492},{13785,4593},{13473,4603},{13898,0},{13788,4605},{13758,4603},{13904,0},{13761,4588},{13776,4485},{13892,0},{13886,0},{13880,0},{13473,4590},{13758,4492},{13895,0},{13889,0},{13922,0},{13883,0},{13767,4496},{13782,4603},{13901,0},{13812,4593},{13491,4602},{13773,4586},{13877,0},{13779,4588},{13815,4603},{13776,4490},{13946,0},{13812,4494},{13791,4481},{13785,4592},{13785,4603},{13482,4605},{13812,4496},{13940,0},{13485,4592},{13925,0},{13449,4605},{13485,4593},{13812,4603},{13943,0},{13782,4470},{13934,0},{13928,0},{13791,4602},{13779,4491},{13413,4593},{13788,4487},{13937,0},{13931,0},{13458,4587},{13949,0},{13773,4490},{13785,4602},{13476,4605},{13461,4602},{13458,4593},{13976,0},{13788,4594},{13491,4590},{13815,4480},{13410,4586},{13964,0},{13955,0},{13970,0},{13458,4602},{13961,0},{13967,0},{13791,4593},{13773,4497},{13958,0},{13782,4590},{13776,4605},{13952,0},{13973,0},{13985,0},{13982,0},{13785,4590},{13806,4490},{13979,0},{13991,0},{13782,4591},{13988,0},{13485,4602},{13788,4485},{13485,4603},{13812,4587},{13446,4597},{13488,4586},{13994,0},{13785,4496},{13776,4471},{13766,0},{13784,0},{13817,0},{13787,0},{13793,0},{14012,0},{14006,0},{14003,0},{13524,4671},{14016,4510},{14025,4170},{13455,4587},{14035,4417},{14032,4233},{14038,4241},{14041,4253},{14047,4282},{14044,4265},{13038,4683},{14042,0},{14054,0},{13308,4688},{14045,0},{13059,4685},{12753,4689},{14077,4276},{14063,0},{14060,0},{14072,0},{14080,4203},{12720,4691},{14093,0},{14098,4359},{14096,0},{14086,4283},{12699,4677},{12846,4682},{14126,0},{14106,4225},{14078,0},{14117,0},{14102,0},{14087,0},{14113,4290},{14121,4186},{14105,0},{13635,4703},{12609,4693},{14132,0},{12723,4679},{14127,4191},{12840,4711},{14125,4204},{13320,4685},{13296,4716},{14114,0},{14144,0},{14138,0},{13305,4713},{14146,4369},{13671,4718},{14153,0},{14163,4431},{14137,4560},{14160,4437},{14158,4558},{14147,0},{13350,4722},{14099,0},{12837,4723},{14174,0},{14159,0},{14175,4190},{14180,0},{14179,4727},{14186,0},{14187,4372},{14192,0},{14193,4193},{14200,4573},{14201,0},{13398,4734},{14210,0},{14216,0},{14228,0},{14030,0},{13776,4491},{14234,0},{14237,0},{12897,4740},{14221,4378},{14235,4100},{13773,4485},{15005,0},{14261,0},{14258,0},{14267,0},{14279,0},{14264,0},{14270,0},{14255,0},{14276,0},{14273,0},{14288,0},{14282,0},{14300,0},{14285,0},{14297,0},{14294,0},{14315,0},{14306,0},{14312,0},{14309,0},{14291,0},{14252,0},{14330,0},{14348,0},{14324,0},{14321,0},{14354,0},{14339,0},{14342,0},{14345,0},{14384,0},{14387,0},{14369,0},{14390,0},{14381,0},{14363,0},{14378,0},{14318,0},{14375,0},{14366,0},{14372,0},{14336,0},{14327,0},{14360,0},{14414,0},{14486,0},{14477,0},{14411,0},{14396,0},{14393,0},{14399,0},{14447,0},{14444,0},{14456,0},{14459,0},{14462,0},{14468,0},{15044,0},{14471,0},{15269,0},{14489,0},{14498,0},{14474,0},{14519,0},{14480,0},{14495,0},{14453,0},{14492,0},{14501,0},{14504,0},{14463,4827},{14441,0},{14435,0},{14423,0},{14429,0},{14510,0},{14420,0},{14432,0},{14405,0},{14438,0},{14402,0},{14693,0},{14615,0},{14555,0},{14678,0},{14558,0},{14631,4842},{14666,0},{14609,0},{14630,0},{14696,0},{14612,0},{14582,0},{14585,0},{14655,4877},{14684,0},{14649,4858},{14591,0},{14588,0},{14594,0},{14669,0},{14627,0},{14681,0},{14699,0},{14597,0},{14561,0},{14687,0},{14600,0},{14522,0},{14663,0},{14690,0},{14570,0},{14543,0},{14660,0},{14552,0},{14525,0},{14654,0},{14579,0},{14573,0},{14606,0},{14564,0},{14639,0},{14648,0},{14549,0},{14618,0},{14672,0},{14603,0},{14642,0},{14636,0},{14540,0},{14534,0},{14546,0},{14537,0},{15287,0},{14756,0},{14768,0},{14732,0},{14720,0},{14715,4907},{14705,0},{14726,0},{14711,0},{14747,0},{14801,0},{14807,0},{14771,0},{14706,4827},{14729,0},{14748,4900},{14795,0},{14798,0},{14744,0},{14738,0},{14753,0},{14735,0},{14789,0},{14786,0},{14822,0},{14852,0},{14877,4953},{14813,0},{14831,0},{14876,0},{14819,0},
{14511,4919},{14814,4842},{14873,0},{14870,0},{14846,0},{14849,0},{14834,0},{14825,0},{14858,0},{14840,0},{14810,0},{14828,0},{14867,0},{14835,4891},{14930,0},{14903,0},{14900,0},{14897,0},{14939,0},{14841,4959},{14948,0},{14894,0},{14912,0},{14915,0},{14891,0},{14942,0},{14885,0},{14918,0},{14951,0},{14904,4973},{14909,0},{14969,0},{14739,4960},{14966,0},{14862,4975},{14862,4907},{14993,0},{14984,0},{14990,0},{14987,0},{14979,4843},{14996,0},{14978,0},{14952,4951},{14355,4968},{14643,4842},{14999,0},{14463,4838},{14922,4968},{14958,4891},{14424,4993},{14841,4977},{14775,4975},{14877,5000},{14511,4973},{14712,4930},{14862,4805},{15008,0},{14862,4987},{14739,4891},{14655,4883},{14673,5000},{14415,4907},{14301,4991},{14760,4883},{14775,4934},{14619,4902},{14301,4891},{14814,4855},{14970,4959},{14721,4987},{15012,4919},{14355,4665},{14955,4991},{15018,5007},{14790,4783},{14739,4821},{14919,4930},{15000,4919},{14514,5000},{14763,4802},{14406,4987},{14802,4842},{14841,4985},{14973,4777},{14952,4907},{14673,4926},{14244,4749},{13755,4748},{14574,4981},{15030,5009},{15035,0},{15038,0},{14505,4916},{14781,4973},{14781,4855},{14814,4975},{14673,4919},{14301,4835},{14934,4975},{14931,4959},{14922,4821},{14715,4881},{14904,4930},{14835,4835},{14748,4816},{14775,4951},{15049,4330},{15046,4237},{15052,4250},{15055,4258},{15058,4272},{15061,4268},{15056,0},{15062,0},{12759,5022},{12750,5017},{12816,5019},{15065,0},{13617,5029},{15085,4357},{15083,0},{15080,0},{15097,4284},{12795,5025},{15101,0},{13332,5030},{12990,5016},{14083,5024},{15047,0},{14088,5023},{15116,0},{15106,4285},{14119,5034},{15113,0},{15074,0},{15119,0},{12852,5032},{15129,4248},{12849,5045},{15152,0},{15149,0},{12612,5040},{15125,0},{13650,5044},{15126,4189},{15086,0},{15139,4366},{15140,0},{15158,0},{15164,0},{15161,0},{15102,4706},{15166,4368},{15170,0},{13365,5051},{15185,0},{15191,0},{15188,0},{15180,4186},{15167,0},{15173,0},{12870,5058},{15206,0},{15107,0},{15187,4459},{15203,0},{15200,0},{15197,0},{15199,5065},{15112,4294},{13077,5071},{13107,5069},{15212,0},{15218,0},{13674,5074},{15225,4302},{15228,4727},{15233,0},{14191,5079},{15239,0},{15243,4413},{14859,4987},{14760,4916},{14904,4962},{15248,0},{13719,5083},{15254,0},{13728,5086},{14778,4777},{14631,4919},{14511,4805},{14973,4907},{14574,4962},{14814,4953},{14565,4975},{14880,4986},{14835,4838},{14922,4827},{14229,5088},{14748,4981},{14505,4974},{14760,4919},{15270,4740},{15274,4074},{15283,4075},{14355,4838},{15271,5092},{12217,5093},{16404,31},{12217,5469},{14853,4981},{14574,4987},{14922,4916},{15282,4098},{14022,5012},{16412,0},{15300,5104},{14301,5102},{15309,5105},{15291,5101},{15297,5098},{15342,5112},{15348,5106},{15333,5113},{15351,4777},{15321,5115},{15327,4785},{14511,5120},{15354,5135},{15414,5132},{15411,5136},{15387,4783},{15402,5126},{15375,4808},{15327,5122},{15390,5135},{15363,5128},{14406,5124},{15417,5127},{14505,5136},{15399,4838},{15369,4805},{15519,5161},{15510,5158},{15426,4874},{15480,5162},{15456,5132},{15459,5134},{15435,5138},{15414,5157},{15516,4873},{15402,4891},{15375,4881},{15447,5148},{15492,5168},{15453,5141},{15420,5108},{15501,5141},{15507,5124},{15429,4843},{15417,5150},{15525,5174},{15480,5156},{15498,5101},{15444,5159},{15465,5163},{15594,5208},{15681,5213},{15603,5150},{14739,5189},{15657,5111},{15672,5212},{15333,5164},{15543,5188},{15585,5100},{15609,4858},{15606,5226},{14775,5193},{15471,5216},{15390,5204},{15447,4934},{15507,4920},{15606,5117},{15330,4904},{15342,5226},{15552,5127},{15510,5140},{15558,5221},{15630,5179},{14715,5209},{15318,5191},{15669,5178},{15561,5214},{15558,4838},{15546,5206},{14790,5177},{14781,5215},{15522,4777},{15666,5096},{14619,5104},{14301,5200},{15633,5146},{15456,5105},{15615,5163},{15684,5185},{15288,5188},{15735,5181},{15420,5106},{15654,4902},{15696,5194},{15708,5251},{15714,5198},{15525,5163},{15603,5108},{15726,4951},{15723,4960},{15741,5162},{15306,5235},{15711,5252},{14841,5229},{14802,5213},{15744,4907},{15714,4900},{15729,5230},
{14622,5229},{14862,5232},{15579,5233},{15753,5105},{15789,5219},{15711,4981},{15636,5254},{15456,5215},{15468,4975},{15453,5100},{15435,5258},{15687,5126},{15615,5187},{15510,4984},{15744,5235},{14706,5270},{15462,5230},{15516,5168},{14406,5259},{15813,4877},{15816,5161},{15723,4977},{14763,5176},{15810,5099},{15621,5157},{15465,5201},{15813,5120},{15528,5104},{15780,5232},{15429,5262},{15813,4827},{15759,5111},{15567,5187},{15522,5225},{15792,4783},{15330,4985},{15501,5265},{15609,5099},{15813,5247},{14934,5262},{14835,5250},{15807,5133},{15435,4945},{15618,4837},{15759,4843},{15525,5221},{15597,5256},{15585,4981},{15861,5288},{15861,5112},{15723,4987},{15852,4858},{15291,5171},{15804,5176},{14622,5163},{15684,4927},{14514,5286},{14565,5215},{15738,5270},{15369,5140},{15858,5096},{15669,5274},{15762,5107},{15633,4981},{14406,5179},{15843,5233},{15774,5118},{15336,5103},{15762,5285},{14814,5103},{15489,5256},{15840,5277},{15516,5180},{15396,4930},{15834,4945},{15612,5288},{14415,5113},{15840,4816},{15807,5283},{14712,5214},{15501,5274},{15354,4907},{15600,4938},{15594,5148},{15846,5221},{15738,4953},{15474,4987},{15720,4827},{15810,5225},{15693,4968},{15669,4953},{15834,4835},{15768,4962},{14886,5158},{15636,5219},{14301,5116},{14712,5252},{15435,5205},{15630,5276},{15624,5235},{15876,4808},{15432,5224},{15630,5184},{15372,4973},{15558,4977},{15594,5237},{15585,5129},{15681,5251},{15393,5253},{15480,4991},{15612,5245},{15636,5173},{15873,4962},{15621,5266},{14790,5219},{15336,5106},{15330,5123},{15510,4802},{15591,5128},{15432,5230},{15744,5247},{15501,4960},{14757,5225},{15369,5124},{15843,4925},{14760,5249},{15495,5137},{15717,4951},{14775,5270},{14922,5271},{15717,5124},{15714,5142},{15600,4987},{14904,5225},{14934,5150},{15879,5155},{15810,4891},{15600,4924},{15528,5108},{15795,5194},{14814,5274},{15306,5136},{14748,5256},{15417,5215},{15291,5299},{14655,5142},{15357,5233},{15771,5178},{15321,4991},{15582,5179},{15393,5130},{15618,5199},{15477,5146},{15618,5141},{15333,4993},{15891,5301},{15840,4953},{15420,5301},{15429,5264},{15432,4874},{15834,5173},{15798,5150},{14775,5126},{15762,4984},{14922,5235},{14739,5199},{15456,5138},{15507,5298},{15630,5285},{15417,5251},{15609,5127},{15561,5132},{15549,5220},{15567,4816},{15378,5179},{15294,4930},{14526,5299},{15798,5217},{15888,5000},{15558,5177},{15516,5135},{15579,5284},{14775,5147},{15615,5186},{15543,5111},{15777,5106},{15924,5286},{15585,4987},{15888,5150},{15672,5197},{15390,4959},{15753,5290},{15525,4877},{15864,5252},{14763,5277},{15834,4960},{15846,5193},{14748,5115},{15630,5098},{15543,5298},{15741,5161},{15567,4883},{15843,4991},{15792,5248},{15798,5302},{14781,5104},{15741,4953},{14643,5113},{14355,5101},{15561,5179},{15720,4916},{15771,5222},{15606,5250},{15894,5215},{15303,5277},{15426,5284},{14565,5156},{15771,5204},{15441,5214},{15561,4984},{15348,5141},{15816,5122},{15669,5201},{15387,4842},{15459,5100},{15321,4837},{15927,5224},{15387,4904},{15930,4838},{15624,5246},{15594,5233},{15672,5222},{15429,5272},{15519,4900},{15687,5298},{15915,5221},{15459,5299},{15453,4953},{15714,5259},{15804,4767},{15624,5168},{15375,4785},{15714,5133},{15540,5221},{15354,4919},{15288,4926},{15567,5099},{15723,5139},{14619,5301},{15492,5285},{14448,5096},{15870,5274},{15402,5175},{14760,5220},{15636,5122},{14781,5171},{15735,5236},{15507,5262},{15795,5179},{15375,4835},{15309,5188},{15861,5201},{15549,4821},{14841,5283},{15723,4954},{15717,4987},{15681,5247},{15873,5228},{15330,5298},{15666,4954},{15903,4985},{15369,5280},{15432,5288},{15435,4974},{15357,5103},{15891,5127},{15297,5265},{15597,4985},{14835,5183},{15297,5188},{15945,5148},{15552,4874},{15450,5159},{15807,4885},{15690,5286},{15426,5124},{15339,5317},{14814,5119},{14763,5230},{15426,5218},{15438,5185},{14463,5226},{14778,5162},{15540,4981},{15915,5115},{15417,5272},{15774,5127},{15564,5235},{15879,5277},{15363,5101},{14760,5099},{15957,5131},{14973,5274},{15666,5101},{15393,4913},{15651,5237},{15960,5167},
{15480,5126},{15849,4930},{14715,5287},{14877,5306},{14958,5162},{15651,5000},{15297,4881},{15621,5128},{15729,5123},{14841,5222},{14853,5136},{15345,4900},{15861,4986},{14931,5263},{15456,4907},{15762,5104},{15582,5132},{15750,5128},{14970,5262},{15966,5108},{15618,5189},{15447,4951},{15435,5127},{15402,5181},{15576,5213},{14712,5219},{15438,4805},{14958,5214},{15441,5156},{14415,5105},{14862,5187},{15666,5302},{15606,5178},{15693,5185},{15816,4777},{15480,5297},{15804,4900},{15357,5161},{15309,4981},{15528,5168},{15411,5259},{15417,5228},{15507,5191},{15627,5285},{14463,5235},{15615,5235},{15543,4973},{15714,5097},{15897,4858},{14655,5129},{15888,5153},{15399,5135},{14835,5117},{15558,5257},{15453,5165},{15597,5266},{14922,5317},{15594,4777},{15696,4891},{14763,5131},{15825,5193},{14406,5211},{14631,5284},{15432,5175},{15621,4816},{15447,5119},{15813,4837},{15747,5100},{15804,5296},{15672,5173},{14970,5148},{14406,5107},{15669,5147},{15978,5283},{15552,5299},{15759,5167},{15327,5302},{15402,5270},{15480,5180},{14880,5199},{15708,5230},{15873,5249},{15450,5251},{15426,5171},{15621,5183},{15417,5159},{15609,5124},{15009,5117},{15639,4984},{15564,5158},{15327,5288},{14772,5132},{14712,5194},{15324,4783},{15816,5179},{15306,5280},{15462,5199},{15465,5126},{15390,5222},{15756,5164},{15618,5266},{15291,4877},{15654,5276},{15846,4885},{15339,5120},{15495,5128},{15984,5208},{15615,5191},{15519,5000},{15519,5158},{15456,5161},{15435,5219},{15669,4986},{15843,5265},{15633,5156},{15729,4974},{15807,5178},{15507,5293},{15792,5235},{15411,5298},{15834,5144},{15576,5175},{15771,5231},{15750,5188},{15741,4805},{15714,5264},{15474,5104},{15414,5213},{15651,4891},{15414,4951},{14355,5165},{15717,4938},{15624,5161},{15891,4930},{15456,4975},{15327,4962},{15321,4900},{15567,5267},{14655,5191},{15735,5215},{15447,5214},{15636,4783},{15918,5263},{15738,5132},{15429,4926},{15357,5108},{15822,5126},{14931,5131},{15774,5128},{14760,5130},{15528,5105},{14943,5285},{15609,5259},{15441,5196},{15585,4986},{15615,5118},{15849,5220},{15465,5106},{15561,5103},{15363,5136},{15999,5262},{15699,5122},{15453,4993},{14529,5317},{15759,5173},{15864,5162},{15627,4907},{15630,4921},{15330,5140},{14715,5197},{15456,4777},{16004,0},{15669,5230},{14715,5164},{15345,5245},{15507,5209},{14922,5114},{15744,4855},{15762,4975},{15462,5211},{15540,5284},{15834,5269},{15729,5271},{14643,5233},{15462,5121},{15816,4926},{15804,5120},{15687,5128},{15462,5127},{15756,5122},{14748,5262},{14622,5232},{15363,5196},{15846,5132},{14880,5147},{15858,5163},{15471,5209},{14802,5122},{15447,4978},{15519,4835},{15618,4900},{15357,5098},{16005,4927},{15768,5137},{15825,4802},{14763,5140},{15453,5163},{15609,5196},{15669,4816},{15426,4907},{15861,5099},{15597,5188},{15327,5216},{15528,5136},{15567,4808},{15321,5221},{15807,5118},{15450,4827},{15711,5176},{15774,5154},{14511,5226},{15489,5096},{15621,4843},{15483,5103},{15432,5169},{15618,4960},{15705,5317},{15834,5204},{14448,5171},{15294,4959},{14970,5214},{15606,4902},{15897,5132},{15807,5282},{16008,5186},{14619,5228},{15468,5214},{15435,5184},{15441,4968},{15789,5267},{15354,5252},{15591,5141},{15402,4984},{15672,4881},{15564,5185},{15453,5283},{15477,5136},{15648,5285},{15672,5135},{15456,4986},{15360,4900},{14505,5297},{15603,5298},{15684,4951},{15510,5127},{15630,5264},{15873,5106},{15585,5281},{15798,5226},{15660,4959},{15681,5241},{15738,5191},{15291,5178},{15510,5211},{15687,5251},{15906,5168},{15759,5257},{14802,5126},{14424,5267},{15840,5230},{15531,5122},{15375,4913},{15429,4962},{16026,5263},{14655,5237},{15417,5177},{14955,5302},{14958,5105},{15588,5285},{15483,5233},{14481,5185},{15408,4900},{15513,5104},{15642,5162},{15420,5112},{15540,4968},{14931,5209},{15552,5259},{14574,5158},{14655,5271},{14862,5150},{15354,5098},{15600,5105},{14715,5111},{15372,5196},{15639,5159},{15309,5225},{15807,5270},{14859,5235},{15609,4951},{15858,5298},{14802,5221},{15357,5290},{15621,5175},{15753,5176},{15774,5121},{14934,5194},
{15717,5281},{15375,5286},{16032,5268},{15393,5141},{15804,5118},{15735,5165},{15630,4945},{15357,5248},{15999,5252},{15606,5096},{15402,5163},{15816,5146},{14712,5274},{15306,5277},{14448,5216},{14505,5201},{15387,5177},{15375,5000},{16035,4954},{15378,5285},{15807,4986},{15327,4924},{15663,5156},{15306,5259},{15834,5229},{15441,4927},{15717,4962},{15852,4981},{15723,5171},{15690,5317},{15510,5103},{14673,5226},{15681,4934},{15846,5214},{15402,5231},{16046,0},{16043,0},{15330,5275},{15666,5237},{15633,5157},{15459,5107},{15534,4881},{16038,5181},{15654,5176},{14835,5275},{15393,4808},{14775,5194},{15462,5298},{15600,5138},{15492,5185},{16047,5100},{15417,5121},{15738,4900},{14622,5113},{15807,5240},{14922,5266},{15423,5232},{15834,5262},{14931,5267},{15591,5250},{15672,5209},{15501,4959},{15597,5217},{16052,0},{15348,5136},{15381,5191},{15540,5288},{15462,5246},{14406,5185},{15567,5181},{15708,5096},{15558,5204},{15342,5135},{15648,4968},{15840,4842},{15609,5105},{15597,5113},{15321,5104},{14778,5259},{14022,5352},{14622,5270},{15720,5231},{15450,5111},{15420,5201},{14721,5117},{14715,5135},{15579,5148},{15369,4987},{15510,4990},{14835,5163},{15609,5290},{15519,5225},{15612,4993},{15294,4777},{16062,4981},{15774,5096},{16425,4749},{15342,4975},{15879,5137},{14853,5237},{15510,5162},{15891,5156},{15432,5243},{15630,5293},{15495,5136},{15375,5240},{15888,5200},{15291,5148},{15363,5285},{15501,5181},{14355,5306},{15399,5228},{15864,5104},{15345,4985},{15768,4930},{15744,5101},{15387,5285},{15609,5142},{15441,5256},{14631,5317},{15729,5113},{15402,5232},{15465,5137},{15825,4843},{15615,5135},{15558,4835},{14355,5116},{15507,4902},{14763,5237},{15804,5100},{15828,4808},{15363,5277},{15612,5286},{14814,5187},{15735,5267},{15654,4907},{15480,4926},{15729,5317},{15540,5119},{15516,5122},{15519,5299},{15756,5191},{15774,4805},{15591,5226},{15846,5194},{15333,5188},{15330,4984},{15384,4959},{15552,5217},{15399,5217},{15879,4924},{15828,5159},{14739,5165},{15888,5179},{15729,5218},{15723,5161},{15636,5180},{15423,5137},{15594,5000},{15852,5174},{15330,5184},{15420,5267},{15306,5290},{15843,5254},{15423,5250},{15435,5243},{15444,5185},{15849,5128},{14934,5286},{15774,5281},{14862,5265},{15684,5221},{15336,5187},{15489,4843},{14748,5208},{15873,5235},{15870,4805},{15417,4938},{15363,5108},{14925,5132},{15753,5126},{15786,5158},{15306,4902},{15891,5211},{14655,5231},{15879,4873},{14715,5229},{14772,5254},{15555,5171},{15825,5207},{14622,5117},{15888,4783},{14835,5290},{15333,4827},{15879,5280},{15624,5146},{15669,4919},{15348,4959},{16422,4099},{15747,5219},{15639,5274},{16105,4247},{16102,4333},{16108,4257},{16112,0},{12999,5367},{16117,4274},{12771,5369},{12774,5373},{12819,5371},{12804,5374},{16130,0},{16133,0},{16127,0},{15093,5378},{16160,0},{16146,5036},{16154,0},{13638,5381},{16114,4273},{16142,0},{16163,0},{16150,4288},{16141,4547},{16167,4169},{16172,0},{16139,0},{16166,0},{16106,0},{12882,5394},{16118,0},{16111,4295},{14082,5395},{16193,0},{15144,5396},{16134,4683},{12864,5383},{16177,4293},{16214,0},{16208,0},{16215,4193},{13359,5403},{16222,4556},{16196,0},{16199,0},{13071,5406},{16246,5063},{13677,5411},{16247,0},{16181,0},{13098,5408},{15177,5409},{16241,0},{16223,0},{16238,0},{16268,0},{13104,5420},{16257,4413},{16178,0},{16254,4177},{16165,5047},{12855,5424},{16276,4563},{16279,5423},{16281,5428},{16295,0},{16298,0},{16291,4371},{13692,5434},{16277,0},{16292,0},{16278,5423},{16307,0},{16310,0},{16313,0},{15417,5156},{15240,5440},{15810,5171},{15291,4900},{16325,0},{15540,4978},{14970,5280},{15636,4905},{15615,5257},{15357,4930},{14958,5225},{15363,5208},{15774,5175},{14673,5317},{15849,4993},{14763,5272},{15516,4924},{15294,5185},{15846,4855},{15519,5286},{15621,5101},{15606,5136},{14955,5298},{15681,5103},{15807,5265},{15750,5235},{15363,5237},{15399,5112},{15399,5299},{15459,5168},{14841,5208},{15567,5263},{15879,5218},{15972,5276},{15516,5213},{15786,5290},{15666,5317},{14853,5299},{15786,4783},{14526,5290},{14619,5159},
{15429,5168},{15321,5247},{15846,5217},{15681,5114},{15342,4837},{15588,5162},{15579,5180},{15510,5150},{15636,5276},{15465,5213},{15681,4907},{14955,5277},{15765,5122},{15741,5265},{15471,5105},{15459,5171},{16340,0},{15672,5264},{16342,4735},{15288,5219},{15843,5149},{14355,5250},{15861,5111},{14862,5157},{16341,4735},{15648,5159},{15345,5226},{14841,5128},{15420,4777},{15942,4783},{15747,4902},{15519,5197},{15543,5209},{15720,5165},{15462,5159},{15813,5219},{15525,5236},{16346,0},{15537,5285},{15864,5168},{15609,5132},{14715,5232},{15552,4827},{16347,5266},{15624,5096},{15342,4991},{15618,5270},{15426,5251},{15894,5136},{15807,5233},{15372,5284},{15621,5120},{15561,5177},{14880,5137},{15840,4877},{15852,5105},{15723,4973},{15429,5193},{15654,5298},{15525,5217},{15507,5178},{14841,5226},{14505,5099},{15480,4973},{15594,5271},{15588,5191},{15771,5105},{14643,5267},{15654,4993},{14775,5124},{14565,5259},{15648,5213},{15621,5099},{16353,5224},{15531,5158},{15489,5306},{15321,4842},{14448,5120},{16356,5238},{15585,4927},{15495,5187},{15336,5231},{14505,5113},{15807,5168},{15579,5214},{15549,4953},{15741,5215},{15591,5266},{15372,5191},{15456,5218},{15489,5298},{15879,5317},{15816,5105},{15384,4900},{15345,4816},{14862,5194},{15684,5274},{14880,5235},{15741,4777},{15297,4821},{15846,5271},{15873,5101},{14835,5106},{15492,5214},{14565,5158},{15510,5152},{14835,5181},{14763,5143},{15567,5148},{15633,5177},{14853,5233},{15459,5132},{15669,5141},{15738,5280},{15888,5254},{14748,5249},{15729,5108},{15591,5171},{15516,5221},{15552,5187},{15558,5291},{15849,5263},{15348,5266},{15681,5159},{15717,5104},{15468,5285},{15618,5209},{15840,5111},{15807,5228},{15693,4907},{15669,4891},{15363,4919},{15825,4926},{15768,5164},{15762,5290},{14655,5276},{15414,4805},{15612,5271},{15906,5132},{15852,5146},{15507,4816},{15420,5298},{15453,4919},{15825,5189},{15591,5101},{15330,5143},{15297,5236},{15300,4877},{15372,4858},{15807,5107},{15879,5178},{15846,5104},{14619,5211},{15348,5217},{15516,5162},{15816,4973},{14406,5276},{14952,5179},{15369,5115},{15390,5102},{15492,5104},{15342,5265},{15519,5183},{16379,0},{13740,5470},{14655,5108},{15453,4960},{15873,5135},{15741,5105},{15510,5206},{15543,4919},{14802,5164},{15360,5185},{15630,5128},{15471,5117},{15426,5228},{15510,5119},{15369,5219},{14802,5262},{15348,5236},{15435,4902},{15291,5297},{15747,5106},{15903,5158},{15843,5138},{15345,4973},{15549,5113},{15585,5251},{15432,5276},{16386,5224},{15471,5277},{15420,5162},{15669,5197},{15507,4954},{14355,5220},{15435,4993},{14631,5299},{15804,5139},{14772,5129},{14448,5101},{15771,4808},{14814,5248},{15714,5299},{16389,4299},{16394,0},{15564,5136},{15507,5221},{15606,5232},{15330,5206},{15444,5168},{16423,4076},{12289,5467},{20178,31},{12289,6727},{15693,5187},{15636,5282},{15582,4930},{14505,5263},{15291,5157},{15354,5171},{15459,4777},{15600,5171},{15600,5203},{15459,5117},{14511,5229},{16155,6412},{16440,4783},{16431,5108},{16434,5481},{16437,5110},{16461,5133},{16458,4816},{16452,5485},{16449,5131},{16479,5144},{16503,4855},{16488,5494},{16485,5146},{16476,5154},{16491,5171},{16470,5117},{16506,5176},{16467,5165},{16536,5513},{16578,5517},{16569,5157},{16560,5220},{16575,5515},{16548,5183},{16557,4919},{16542,5098},{16566,5199},{16518,4926},{16512,5194},{16533,5508},{16563,4900},{16530,5218},{16515,5197},{16509,5507},{16527,5217},{16587,5250},{16674,5244},{16677,5159},{16641,5240},{16647,5245},{16626,5113},{16638,5544},{16605,5249},{16692,4883},{16680,5239},{16689,5115},{16695,5231},{16614,5231},{16599,4900},{16686,5550},{16668,5179},{16671,5153},{16656,5116},{16665,5554},{16683,5540},{16650,5543},{16581,5246},{16602,5531},{16755,5267},{16716,5156},{16746,5268},{16704,4974},{16749,5584},{16731,4883},{15765,5570},{16722,4926},{16743,5579},{16725,5240},{16701,5257},{16719,5261},{16707,5266},{16893,5625},{16845,5217},{16824,5263},{16839,5279},{16869,5616},{16836,5133},{16791,5606},{16785,5196},{16866,4919},{16800,5155},{16854,5228},{16821,5169},
{16767,5196},{16770,5141},{16851,5629},{16809,5610},{16806,5237},{16776,5276},{16890,5129},{16881,5286},{16857,4990},{16782,5275},{16827,4975},{16815,4986},{16872,5289},{16884,4927},{16773,5256},{16920,5174},{16938,5267},{16620,5241},{17004,5208},{16989,5275},{16902,4960},{16899,5115},{16977,5253},{16914,5639},{16941,5140},{16962,5650},{16965,5641},{16929,5165},{15882,5670},{16980,5229},{16992,5665},{16896,5252},{16911,5240},{16905,5636},{16986,5165},{16998,4913},{16947,5117},{17007,5671},{16968,5286},{16959,5652},{16953,4843},{16983,5250},{16971,4816},{19986,5283},{17145,5268},{17034,5288},{17160,5680},{16506,5711},{17067,5097},{17094,5697},{17082,5693},{16635,5692},{17127,4843},{17121,5213},{16575,5722},{16635,5589},{17163,5125},{17106,5701},{17142,5280},{17088,5300},{17130,5706},{17157,4907},{17151,5700},{17124,5243},{17136,5297},{15885,5684},{17064,5687},{17031,5138},{17022,5682},{17016,5217},{17097,5148},{17037,5686},{17043,4926},{17154,5168},{17199,5303},{17289,5762},{17238,5745},{17187,5178},{17271,5735},{17220,5743},{17175,5102},{17259,5738},{17280,5271},{17208,5253},{17283,5184},{17226,5184},{17277,4975},{17247,5750},{17184,5732},{17262,5124},{17265,4975},{17223,5764},{17268,5142},{17274,5606},{17178,4913},{16890,5727},{17256,5744},{17211,5220},{17172,5230},{17169,5481},{17409,5177},{17412,5238},{16794,5766},{17328,5777},{17322,5780},{17391,5160},{17358,5278},{17337,5768},{17406,5306},{17397,4808},{17400,5172},{17385,5789},{17403,5237},{17376,5796},{17370,5117},{16686,5177},{17382,5791},{17310,5249},{17343,5212},{17349,5782},{17307,5197},{16509,5109},{17442,5197},{17499,5812},{17490,5313},{17469,5831},{17418,5105},{17484,5312},{17481,4926},{16635,4975},{17487,5826},{17421,5816},{17163,5819},{17463,5822},{17472,5311},{17430,5805},{17454,5680},{16713,5276},{17517,5203},{17520,5277},{17526,5243},{17529,5630},{17181,5541},{17505,5250},{17511,5302},{17547,5851},{17565,5151},{17556,5844},{17559,4993},{17568,4985},{16806,5265},{17574,5236},{17601,5318},{17592,4947},{17583,5862},{17589,4808},{17598,5275},{17580,5859},{17610,4984},{17625,5120},{17619,5232},{17655,5876},{17637,5120},{17634,5880},{17622,5224},{16452,4885},{17652,5116},{17394,5216},{17649,5881},{17607,5183},{17616,5871},{17631,5882},{17679,5894},{17676,5223},{17670,5889},{17700,5898},{17691,5899},{16713,5211},{15963,5901},{17715,5220},{17049,4978},{17706,5181},{17718,5102},{17709,4953},{15942,5540},{17391,5601},{17739,5914},{17745,5207},{17724,5118},{17763,5707},{17760,4968},{17748,5917},{17757,5323},{17766,5291},{17754,5257},{17775,5924},{15972,5926},{17793,5932},{17781,5118},{17784,5245},{17805,4993},{15975,5933},{17802,5936},{17820,5226},{17712,4938},{17823,5240},{17838,5945},{17826,5943},{17850,5128},{17847,5948},{17460,5303},{17856,5116},{17862,5178},{17865,5956},{17874,4905},{17871,5121},{17070,4973},{17877,4874},{17889,5229},{17880,5154},{17886,5961},{17904,5151},{17910,5149},{17913,5967},{17916,5480},{17925,5204},{17922,5163},{17919,5127},{17934,5253},{17931,4984},{17295,5284},{17523,5713},{17952,5153},{16446,5301},{17940,4816},{17955,5981},{17949,5189},{17973,5989},{17715,5167},{17964,5181},{17985,5134},{17979,5096},{16785,5329},{18003,5204},{17997,5229},{16683,5254},{17994,6000},{18012,5230},{18006,5201},{18009,5134},{17073,5248},{18033,4913},{18027,5115},{18024,6007},{18018,6005},{18039,4808},{18048,6014},{17139,4987},{18054,6017},{16494,4821},{18075,5331},{17982,4954},{18069,5628},{18072,5113},{18060,6022},{18093,4934},{18078,5225},{18090,5329},{18081,5252},{18084,5286},{18096,5148},{18105,6041},{18129,6036},{18126,5111},{18111,6034},{18135,5248},{18141,6048},{18138,4945},{18132,5332},{16545,5481},{18156,5141},{18159,6055},{18162,5167},{18171,6050},{18153,5188},{18180,6061},{18186,5201},{17049,5766},{16677,5109},{16638,4904},{13482,6063},{18195,6066},{17223,5247},{17613,5146},{19542,4838},{18192,4905},{18255,4821},{18216,5306},{18213,5266},{18057,5150},{18246,5152},{18252,5210},{16518,5158},{18243,4821},{18225,5301},{18201,6068},{18222,6079},
{18240,4921},{17076,6086},{16716,5104},{18210,4925},{17073,6049},{17067,5222},{19983,6078},{18228,4827},{18231,5231},{18261,5288},{18348,5338},{18282,6093},{18318,5167},{18354,5141},{18285,4902},{18264,5197},{16791,5692},{16506,5606},{17538,6023},{16623,5160},{18312,5337},{18276,6091},{18363,5200},{18357,5131},{18267,4873},{18309,5484},{18336,6111},{18315,5267},{18297,5211},{18303,5194},{18291,6398},{16632,5485},{18342,5101},{18306,4985},{18324,6110},{19716,6109},{18417,6138},{18405,5220},{18375,6123},{18402,6133},{16017,6129},{17571,5156},{18411,4808},{18408,4993},{17289,4858},{18372,4902},{18384,4855},{18429,5167},{18423,5264},{18426,5130},{18456,4900},{16791,5478},{18435,4993},{18438,5148},{18432,4883},{18468,6155},{18471,6158},{18462,5324},{18459,5100},{16020,6147},{18447,5153},{18444,5275},{18450,5125},{18483,5188},{18477,5205},{17919,5281},{18495,5255},{18492,5515},{18486,5137},{18525,6174},{18516,6173},{18498,5259},{18507,6168},{18510,6171},{18531,4919},{18528,5269},{18576,5562},{18537,5280},{18573,6194},{18579,6184},{18543,6182},{18549,6185},{18567,5250},{18561,6188},{18570,5267},{18540,5231},{18558,5507},{18597,5264},{18594,6196},{18090,5485},{18585,4947},{18591,4767},{18627,6208},{18621,5271},{18612,6202},{16926,6103},{16842,5621},{16740,5515},{18663,5327},{18660,6219},{18639,5151},{18666,5291},{17955,4934},{18654,5290},{18645,5123},{18642,5841},{16728,5274},{18630,5168},{18636,5181},{18648,5183},{18633,5114},{16629,5150},{18726,5317},{18735,5174},{18699,5186},{18729,5253},{17769,5503},{18672,6240},{18717,6229},{18681,5263},{16434,5690},{18714,5847},{18702,6235},{18741,6246},{18678,5198},{18684,5000},{18690,5224},{18693,5115},{18753,6252},{16716,5195},{18759,5283},{18768,6250},{18765,5250},{18744,6254},{18480,4838},{18804,5229},{18792,6263},{16926,5758},{18771,6260},{18795,6261},{18777,5197},{18798,6270},{18807,6258},{18813,4916},{18819,5188},{17892,5501},{18846,5169},{18837,5189},{17049,5282},{18849,6280},{18843,5206},{18867,5249},{18870,6291},{18858,6284},{18879,6294},{18876,5145},{18603,5122},{18897,6296},{18900,5356},{18906,6301},{18909,5266},{17193,5305},{18891,5306},{18894,4913},{18918,6304},{18930,6312},{16071,6308},{18945,5246},{18831,5713},{18939,6314},{18963,6320},{18954,5257},{18957,5224},{18951,5281},{17955,5170},{18948,5191},{16074,6322},{18978,6325},{18309,4978},{19002,6333},{18990,5113},{18993,5101},{18987,5253},{19008,5283},{19011,5110},{19014,5114},{19017,4785},{19023,6342},{19029,6340},{19041,5291},{16857,5798},{18960,5170},{19032,5181},{16557,5219},{19035,5207},{19050,5620},{19056,4924},{19053,5125},{19044,5167},{19065,5268},{19071,6356},{19059,4843},{19077,5677},{19092,6363},{19086,5361},{19083,5302},{19095,4821},{17529,5160},{18387,5101},{19107,5181},{19110,5153},{19098,5275},{17814,5149},{17436,6371},{19116,4838},{19125,6373},{19122,4881},{19140,6379},{19131,5258},{16089,6378},{16644,5233},{19143,4835},{19149,4920},{19146,5264},{19152,5539},{18069,5172},{16092,5558},{15783,5533},{19155,5116},{19161,5365},{17523,5126},{19167,6388},{19173,5137},{19176,5188},{19185,6396},{19182,6393},{19192,4078},{19201,4340},{19204,4264},{19207,4343},{12792,6401},{12885,6403},{19220,0},{19202,0},{19214,0},{19226,0},{19216,4358},{19223,0},{19241,0},{19229,0},{19217,0},{12741,6427},{16173,6420},{15141,6426},{19255,6417},{19263,6414},{19247,0},{19269,4191},{13029,6402},{19257,4126},{19295,0},{19286,0},{19253,0},{19307,0},{19301,0},{19287,4126},{19309,4370},{16200,6432},{19292,0},{19304,0},{19268,0},{19264,5386},{19334,0},{12519,6442},{16230,6438},{19319,0},{19325,0},{16240,6445},{19322,0},{13668,6452},{19349,0},{19353,6445},{19352,0},{16248,6453},{19310,0},{19239,6448},{19341,5417},{19340,0},{19379,0},{19374,4302},{12879,6457},{19370,0},{19367,0},{19391,0},{19324,6440},{19384,4724},{19382,0},{19399,4565},{19385,0},{13689,6468},{19403,0},{19400,0},{13113,6469},{19412,0},{13701,6472},{15234,6473},{16506,4978},{16809,6476},{19422,4858},{19427,0},{16551,5102},{19455,5265},{17892,5507},{19449,6482},{19431,5120},
{16854,5798},{19437,5281},{19452,5209},{14196,6478},{19443,5125},{19440,4881},{19488,6488},{18663,6122},{19476,5228},{19470,5178},{19473,5154},{19458,5235},{19194,5243},{19479,6494},{16326,6495},{19467,5443},{19491,5155},{19524,5296},{19536,5122},{17817,6164},{18090,4904},{19497,4960},{16332,6498},{19551,4843},{19500,6501},{19521,5115},{19512,4913},{19554,6513},{19548,6515},{19527,6510},{19515,4835},{19533,4808},{19563,6522},{17916,6122},{19557,5230},{19572,5275},{19569,6526},{17817,5690},{19581,5297},{19584,5115},{19575,5185},{18495,5598},{19587,4991},{19590,5218},{16629,5196},{19605,5218},{19602,4993},{19614,6537},{19608,5167},{19619,0},{18147,5299},{17121,5100},{19620,5153},{19635,6546},{19626,4838},{19644,6547},{18831,5838},{19650,6551},{19657,4577},{19665,5281},{19659,5297},{19662,5277},{18150,5120},{19671,5259},{19686,5248},{18336,5141},{19680,6559},{19674,6556},{17364,5210},{17919,4968},{16785,6384},{19704,5183},{19689,5275},{19695,6564},{19716,4827},{19710,6569},{19719,6577},{19722,6576},{13731,6552},{19737,5202},{19749,6582},{19752,5450},{19764,6203},{19761,5253},{19758,6585},{17628,5181},{19770,5220},{19773,6592},{19767,5228},{19782,6595},{19794,5185},{19797,5194},{19788,6597},{17271,4904},{19809,4974},{17712,5146},{19806,5204},{19818,6605},{19821,5107},{19827,5278},{19836,5306},{19833,4827},{19839,5220},{19842,6616},{18831,5836},{16434,5500},{16629,6384},{19851,5141},{19854,4981},{17364,5109},{19857,4927},{19866,6621},{19875,4816},{17067,5559},{16440,5596},{17205,5150},{19893,4945},{19887,5299},{16359,6632},{19890,5000},{19902,5178},{19884,6627},{19917,6638},{19911,4947},{19920,5274},{17955,4927},{19926,6641},{19935,5130},{19944,6647},{19947,6646},{19101,5599},{16650,5731},{18258,5239},{19956,5189},{19953,5140},{19950,5243},{17508,5216},{19962,6655},{16926,5597},{16365,6656},{19971,6658},{19983,6659},{17355,5155},{20214,6739},{19995,5207},{19989,6664},{20001,5249},{18510,5153},{17943,5201},{20016,5290},{20010,6671},{20025,4951},{16374,6674},{20031,6183},{16857,5838},{20040,5291},{20046,6681},{20055,5306},{20061,4960},{18093,5242},{18492,5727},{20067,6688},{20076,5229},{20085,6694},{20079,6127},{20091,4953},{18960,4916},{18663,5923},{18963,6384},{16383,5705},{20094,6699},{18093,5193},{20109,4977},{20103,5795},{20115,5259},{20118,5306},{17649,5161},{19428,5921},{20136,6711},{20130,6709},{20142,6715},{20151,5220},{20154,4746},{19197,5203},{13147,5476},{16827,5951},{19764,5610},{17970,5167},{19986,4874},{16443,5539},{20160,5257},{20166,5466},{20172,6723},{20193,4924},{20186,0},{20155,4746},{20202,5473},{20205,5183},{16413,6736},{20196,6244},{20199,6331},{15987,5881},{12279,6397},{20039,0},{20229,6742},{20223,5119},{20232,5482},{16464,6745},{16500,6748},{20238,5491},{20241,5499},{20262,5207},{20256,5190},{20250,4924},{20271,5518},{20253,6753},{20247,5180},{20268,4921},{20295,5530},{20319,5545},{16623,6766},{20310,5536},{20322,5251},{20280,5234},{20304,6771},{20316,5214},{20286,5252},{20277,5528},{20292,5532},{20301,6769},{20331,5120},{20334,5566},{20367,5571},{20346,5503},{20388,5273},{20382,6795},{20373,6792},{20343,5515},{20358,5216},{20364,5578},{20361,4962},{20325,5160},{20340,5576},{20337,5192},{20349,5158},{20352,6785},{20418,6807},{20415,5604},{20397,5290},{20430,5598},{20400,5620},{20406,6798},{16788,6803},{20424,5589},{20484,6832},{20505,6819},{20487,5139},{20451,5570},{20493,5178},{20445,6811},{20472,5194},{20460,5645},{20454,4968},{20463,4802},{16926,6834},{20436,6813},{20478,4987},{20508,5667},{20469,5658},{20553,6845},{16521,6844},{20589,5609},{20565,5704},{20571,5703},{17148,6838},{20595,5695},{20580,6864},{20559,6849},{20529,5690},{20562,4927},{20568,5274},{20556,4842},{20520,5675},{20541,6850},{20526,5685},{20577,6861},{20586,5683},{20616,6873},{20646,6891},{20679,5501},{20604,5734},{20634,5765},{15912,6869},{20670,4990},{20613,6866},{20622,5296},{20640,6879},{20685,5497},{20655,6875},{20661,5751},{20667,6892},{20652,6881},{20601,6774},{20628,5748},{20658,5739},{20715,5262},{20694,5254},{20703,5162},
{20733,5764},{20712,5129},{20742,6917},{20724,5788},{20727,5252},{20760,5296},{20736,6913},{20691,5772},{20709,5775},{20721,5784},{17313,6899},{20706,6906},{20799,5832},{20814,5834},{20817,6936},{20805,6932},{20820,6943},{20772,5813},{20784,5825},{20778,6927},{20502,5301},{20826,6929},{20802,6931},{20832,5202},{20847,5314},{20850,6951},{20856,5198},{20880,5847},{20892,5850},{20886,5848},{20889,5180},{20895,5632},{20883,5845},{20247,5297},{17595,6972},{20907,5857},{20232,5196},{20919,6971},{20931,6978},{20940,6974},{20925,6979},{20970,5208},{20955,5886},{20961,5891},{20964,4947},{20946,5589},{20958,6989},{20982,6991},{20949,5888},{20979,6992},{20988,5711},{20994,5282},{21000,5104},{21015,5912},{21012,7002},{21018,5909},{21009,5907},{21027,7010},{21021,7008},{21039,7016},{21051,5923},{21042,7015},{21036,5177},{21054,6810},{21063,5937},{21072,7025},{17508,6849},{20763,5938},{20625,4783},{21081,5944},{21084,5947},{21090,5722},{21096,5951},{20961,5482},{21093,6775},{21102,4978},{21117,5123},{21114,7037},{21126,5482},{17895,7041},{21132,7045},{21147,5976},{16740,6966},{21069,5170},{21159,5227},{21162,5727},{21153,5982},{21168,5986},{20682,7055},{21174,4962},{21171,5990},{21180,7061},{16575,6970},{21189,5997},{21186,7055},{17400,7064},{21201,5296},{21213,6010},{21216,6012},{21219,6015},{21231,7075},{21228,7074},{20688,4934},{21240,5287},{21234,5170},{21246,6019},{21243,5539},{21237,7086},{21255,5576},{21252,5268},{21276,6039},{21267,7088},{21279,7096},{21297,7100},{20421,7098},{21318,7107},{21309,7104},{18174,7105},{21165,5165},{18219,7112},{21354,5711},{21342,7117},{18249,7116},{21345,5205},{18207,7109},{21341,0},{21060,5930},{21333,5171},{21330,6070},{21366,5272},{21396,6115},{21417,5500},{18270,7121},{21414,7119},{21411,6117},{21402,7136},{21405,7126},{21399,6120},{21375,6098},{21387,6893},{18288,7123},{21390,7127},{21393,6107},{21360,5596},{18390,6837},{21483,6911},{21474,6399},{21444,6127},{21477,7155},{21495,7164},{21468,5277},{21462,6132},{16785,7144},{21471,6023},{21423,7151},{21447,7150},{21456,6834},{18378,7147},{21435,6131},{21429,7142},{21438,5138},{21198,6122},{20349,4783},{21498,7167},{21519,7172},{21522,5890},{21528,7175},{21531,6151},{21552,6160},{21549,5341},{21558,7185},{21561,5343},{21570,7191},{21540,5327},{21567,7192},{20889,7188},{21543,7182},{21579,6163},{21294,5212},{16854,7194},{21591,7196},{21609,7201},{21597,7200},{21612,6178},{21615,5177},{15990,7104},{20346,5497},{20556,5216},{21645,6200},{21624,7207},{21618,7023},{21630,6201},{21639,7212},{20673,7216},{21627,7211},{21651,5160},{21657,6206},{21654,7220},{21666,7223},{21678,6070},{21675,5261},{21681,7241},{21717,6244},{21690,5628},{21702,5330},{21705,6863},{21687,7231},{18711,7236},{21699,6236},{21684,6225},{21714,6223},{21696,5107},{21744,7253},{21771,7256},{18747,7244},{21192,5487},{20994,7251},{21738,5158},{21741,7250},{21726,7245},{21378,7249},{21758,0},{20403,5156},{21789,7262},{21777,5265},{21816,7268},{21795,7264},{17091,6862},{21825,5242},{21651,5213},{21837,7277},{21840,6288},{21828,5353},{21834,5355},{21855,6969},{21852,5763},{21867,7290},{21873,6311},{21879,6309},{21861,7292},{21753,7042},{21897,5192},{16686,7120},{20337,5194},{21900,6323},{21915,6328},{21906,6324},{21909,7301},{21912,6327},{18258,7144},{21132,5763},{20307,5162},{21924,6332},{21933,5360},{16719,7312},{21942,5603},{20346,5543},{21945,7316},{21939,4927},{21954,7317},{21972,6905},{21969,7322},{21042,5926},{21963,6349},{21975,7327},{21987,6360},{21996,7333},{22005,7334},{16086,7222},{22008,6866},{22011,6368},{18492,7032},{22014,6114},{22026,6376},{22029,7344},{22035,7346},{22047,7351},{22050,5174},{22041,7348},{21594,7336},{16434,7353},{21663,5982},{22062,7355},{22077,7358},{22071,6390},{22080,5207},{22095,7364},{22102,4347},{22105,4266},{12798,7368},{22108,4275},{22115,0},{22112,0},{22103,0},{19230,7372},{19233,7375},{22119,4177},{22130,0},{16179,7378},{13074,7380},{19248,7379},{20222,0},{12825,7369},{22157,0},{22166,0},{22154,0},{22151,0},{22167,4413},{19302,7386},{22163,0},
{22145,0},{22129,5390},{22194,7394},{22189,4561},{22185,4193},{19245,7399},{19254,7392},{19329,7391},{22148,0},{22193,0},{22211,0},{22183,7398},{22218,7408},{22204,7404},{22214,0},{22205,0},{16263,7405},{22223,0},{22190,0},{22229,0},{13110,7414},{22250,0},{22241,0},{22247,0},{22235,0},{19362,7410},{22259,0},{22239,6459},{22262,0},{16299,7421},{19392,7426},{22282,6467},{22284,5073},{22283,0},{22289,0},{13695,7431},{22298,0},{19413,7433},{22304,0},{15232,7434},{22307,0},{16318,7435},{22308,5301},{22314,7440},{22311,5982},{22350,7443},{21363,5857},{15247,7448},{16719,7034},{22335,5179},{17649,7205},{22323,5683},{21564,7335},{22332,6487},{22341,5149},{17067,7449},{22371,7456},{22359,6506},{22377,7458},{22365,6502},{22346,0},{22356,5282},{21267,5282},{22404,5981},{22407,7475},{22410,6895},{22389,7462},{22401,7466},{22392,5771},{22428,7313},{22419,7472},{22395,5103},{22449,7484},{21702,7481},{21741,6277},{22461,7488},{22467,5301},{22470,7491},{22476,7493},{15255,7494},{21897,5711},{22488,6541},{22485,5116},{22491,6543},{21054,7500},{21774,5158},{22515,7504},{22518,6561},{22524,7510},{21582,5551},{16785,6803},{22521,7182},{22542,6566},{22545,5939},{22428,5296},{22554,7517},{20424,6763},{22350,7180},{21177,6806},{22557,5926},{22571,0},{20544,5180},{20532,6476},{17673,6766},{22341,5153},{22578,7441},{21582,5606},{22587,7528},{22581,5109},{22596,7531},{19779,7530},{17133,7117},{20670,5104},{22347,5972},{22605,6600},{22608,6601},{21045,5716},{22620,6604},{22614,4855},{22617,7541},{21201,5501},{16491,6919},{22638,7545},{18609,7547},{16461,7481},{20340,5213},{22650,5881},{22665,6623},{22659,7552},{21669,5994},{22674,5196},{19101,7180},{22404,5621},{22680,4930},{22683,6635},{22692,6636},{22701,7568},{22707,6643},{22710,6644},{21246,4977},{16863,7353},{21234,7574},{22719,5904},{22728,7577},{22737,7578},{22743,6653},{22521,6742},{22746,5762},{22752,7585},{22938,6737},{22944,6728},{21690,5296},{22770,7589},{22773,5457},{22779,5198},{16683,7086},{21582,6277},{22776,6668},{21942,5213},{22782,6673},{22788,6676},{21309,5288},{21471,5735},{22410,6815},{22800,5122},{22362,5254},{22578,5723},{22812,6691},{21891,5797},{21855,4904},{21123,6751},{21972,5193},{20307,5525},{22827,7608},{20712,5972},{20724,5921},{20982,7334},{22845,7614},{22836,7611},{22839,6700},{22848,5225},{21582,5841},{17298,7525},{22857,6707},{22860,5716},{20346,5723},{22863,6708},{20997,5589},{17091,7534},{22881,6719},{22884,5241},{22890,6721},{21357,6087},{20259,7089},{20158,7627},{22902,6729},{22911,7636},{18366,6787},{18147,7574},{22899,7632},{22917,5470},{22914,5472},{22889,0},{12292,7640},{24798,31},{12292,8267},{22929,7642},{22935,7644},{22943,0},{13740,8265},{24789,4580},{24806,0},{12301,8257},{24825,31},{12301,8276},{22131,8044},{22947,5498},{22953,5147},{22950,4802},{22965,5524},{22959,5196},{22956,5192},{22986,4858},{22971,6758},{22980,5548},{22974,5537},{20289,7656},{23013,5588},{23010,5586},{23001,5117},{22989,5570},{22995,7666},{23016,7673},{23007,6793},{23022,6797},{23055,5274},{23049,5129},{23034,7680},{23031,5593},{20412,7686},{23067,5626},{23070,5614},{23061,6809},{23064,6801},{23025,5570},{23091,6103},{23079,5644},{23094,6833},{23082,5648},{23124,5104},{23127,6848},{23103,6858},{23139,5302},{23133,5705},{23136,6846},{23106,7707},{23112,7705},{23178,5307},{23172,5747},{23181,5731},{23157,5196},{20610,7715},{23193,6896},{23148,5730},{23190,7720},{23166,7723},{20529,7656},{23142,6894},{20631,7725},{23220,5767},{23214,5778},{23202,5773},{23229,5285},{23217,7732},{23223,7737},{23247,6919},{23238,5515},{23235,5497},{23199,4921},{23244,6910},{23268,5817},{23256,5809},{23253,5808},{23280,5820},{20775,7753},{23265,7750},{23262,5815},{23295,6953},{23151,5500},{23313,6957},{23298,6946},{23328,5836},{20868,7768},{23319,5135},{23331,6966},{23025,5500},{23343,6968},{23349,5171},{23355,6970},{23358,5868},{23367,5239},{23364,5252},{23124,6882},{23391,5895},{23388,5896},{23397,7800},{20985,7794},{23409,4990},{23412,5109},{23427,7011},{23433,5741},{23445,5930},{23439,5929},
{23448,7019},{23451,5544},{23460,4968},{23457,6920},{23466,7029},{23472,6782},{23340,7033},{23478,5953},{23481,5213},{23484,5180},{23487,5966},{23493,5969},{23499,7050},{23505,5327},{23508,4960},{23346,5215},{23511,5987},{23514,7839},{23523,7062},{23526,5996},{23544,7068},{23553,7840},{21237,7852},{23562,5741},{23502,7853},{23565,6021},{23568,6982},{23574,4877},{23577,5282},{23583,6033},{23586,6040},{23580,7090},{23595,5764},{23598,5005},{23607,4873},{23637,7815},{23628,6100},{21384,7877},{23625,5741},{23619,7124},{23622,7872},{23643,7880},{23382,7030},{18339,7878},{21480,7893},{23688,5843},{23670,7153},{23649,7140},{23676,7894},{23685,7163},{23655,7891},{23658,7884},{23667,7888},{23646,5943},{21129,7913},{23745,5262},{23727,7910},{23691,7908},{23697,6140},{23706,7903},{20607,7911},{23703,7169},{23718,7171},{23742,6786},{23754,7179},{23781,6811},{23766,7921},{23778,5172},{23772,7746},{23787,7195},{23784,7923},{23793,6167},{16653,7935},{23811,7936},{23820,5149},{22956,6203},{23829,7947},{23835,6772},{23832,7946},{23847,6217},{17166,7713},{23844,5254},{23859,7237},{23856,6232},{17295,7951},{23235,6772},{23880,7958},{23871,4986},{18210,7900},{23862,7243},{23868,6019},{23886,7254},{23892,7255},{23910,6267},{23898,7258},{23919,5246},{21783,7967},{23895,7971},{23904,5281},{23925,6272},{23931,6275},{23940,6824},{23739,7851},{23946,6287},{23943,5719},{23952,7109},{23958,7281},{23733,5172},{23964,7286},{23973,6956},{23970,7295},{23979,7297},{23982,7995},{24006,5359},{23994,7999},{23991,7306},{24003,7307},{24009,5221},{24012,6335},{24015,5731},{24024,5614},{24033,5293},{24027,5212},{23898,5841},{21369,8010},{24048,7328},{24045,6358},{24039,6354},{21564,7924},{15942,8018},{24057,6367},{24060,7051},{24066,4973},{23181,5798},{22017,8021},{24069,7341},{24072,5632},{16857,7795},{24090,7352},{24096,6386},{24111,7361},{15765,8038},{13593,8041},{24122,0},{24128,0},{24130,4360},{24121,4281},{22122,8045},{13041,8046},{24147,4217},{24146,0},{13357,8048},{13080,8043},{24150,6424},{24161,0},{24167,0},{24158,0},{24155,0},{24124,4531},{22179,8056},{22170,8059},{24193,7397},{24182,0},{24143,0},{15192,8062},{24185,0},{24209,0},{24199,6446},{24200,0},{24212,0},{24192,8072},{24234,8077},{13683,8081},{24230,0},{24227,0},{24239,0},{19365,8076},{24224,0},{22254,8085},{24252,8087},{19387,8088},{24251,0},{19395,8089},{22273,8092},{24266,0},{24281,0},{24278,0},{24287,0},{24288,7430},{24301,8102},{24296,0},{16288,8070},{24302,0},{16314,8101},{16317,8103},{24314,0},{24315,4783},{21051,8106},{24321,7446},{24342,6203},{24324,8109},{24339,4978},{23877,5841},{24345,7984},{24351,6514},{22353,7991},{24333,6503},{24336,7461},{24354,7454},{24372,6520},{24360,8122},{16335,8123},{22434,8132},{24402,7479},{24375,5162},{24378,5276},{22446,7662},{24428,0},{24429,6544},{24432,7499},{24435,5297},{24438,7498},{24444,5252},{24450,7511},{24447,7512},{24459,6567},{24462,7513},{24471,5221},{16632,8155},{16575,7875},{24477,5156},{23595,7474},{24486,6578},{24492,5139},{24495,6580},{24030,7525},{24498,5610},{16794,7684},{24504,8167},{24513,7533},{23901,7534},{24522,8175},{24534,8177},{24537,5938},{24540,7542},{24543,7543},{24435,4990},{24549,6610},{24558,6615},{23436,5596},{17166,8150},{17049,8018},{24564,6620},{24576,6624},{24585,6633},{24579,6626},{22950,7031},{23190,7253},{24588,7565},{20601,8038},{24603,7572},{24600,7571},{24465,7511},{22725,8205},{24612,8202},{24609,7045},{24618,7580},{23328,6748},{24641,0},{24672,5124},{23325,5798},{24642,6666},{24648,7936},{22641,7856},{24657,7907},{24654,6669},{24318,5904},{24651,6309},{24666,7597},{24669,7598},{20988,8005},{24675,5211},{23160,5762},{24681,6684},{23451,5766},{24684,6686},{24687,6909},{24624,5525},{24690,7607},{24696,6696},{24705,8234},{23346,5838},{22329,7853},{24714,6702},{24711,7249},{24726,7618},{24723,6704},{20655,7668},{24315,5164},{24747,7624},{16396,8252},{23781,7947},{23490,5544},{17514,7854},{24756,5465},{24759,5238},{24762,7635},{22800,7779},{23556,6086},{24765,5766},{24783,8260},{18147,8258},{24792,7641},
{24636,7588},{24805,8273},{24843,5225},{24840,6755},{24837,7654},{24849,5553},{24852,7661},{24846,5539},{24867,5587},{22992,8287},{24855,5201},{24858,5580},{24885,8297},{23046,8292},{24873,8294},{24870,7679},{16797,8288},{24888,5621},{24879,5601},{24909,6830},{23073,8304},{24903,7695},{24894,6822},{24906,6825},{24897,6816},{24918,6827},{24921,6837},{24924,5673},{24933,6839},{24930,6841},{24927,7706},{24939,8312},{24945,5306},{24954,7728},{24951,5606},{24957,6888},{24948,6883},{24942,5305},{17379,8324},{24963,7744},{24978,6900},{24993,6915},{24975,5787},{24969,5785},{24966,7747},{24999,5811},{25005,6937},{25014,7758},{24996,7761},{25011,8336},{25035,6954},{25047,6959},{25044,6958},{25032,6955},{25038,6948},{25029,6945},{25053,5846},{25068,6967},{25080,6976},{25086,6984},{25089,5887},{25092,6981},{25107,8368},{25101,7001},{25095,5548},{25098,5904},{25110,5911},{25125,7022},{25122,7020},{25131,5939},{25134,7026},{25146,6838},{25149,7036},{25152,7035},{25155,7040},{25158,4968},{25161,7046},{25164,5979},{25167,7052},{21177,8390},{25173,5118},{25179,7843},{25182,7065},{23535,8386},{25188,7070},{25191,5305},{25200,5271},{25197,7857},{25206,4927},{25203,7087},{25212,7091},{25215,7095},{25221,7094},{25191,7062},{25224,7867},{25230,6059},{25242,8415},{25233,8418},{25257,7162},{25251,7887},{25239,8294},{25236,8416},{25281,7912},{25269,7168},{23694,8420},{25263,8422},{25278,8428},{25272,7905},{25275,7904},{25287,7907},{25290,8433},{25317,8431},{25296,7919},{25314,7178},{25308,7917},{24873,5766},{25266,7925},{25326,5722},{23796,8444},{25335,7930},{25338,8443},{25341,7202},{25344,7938},{25347,7939},{25350,6205},{25356,8454},{25353,5282},{25365,6049},{25371,6241},{25377,7961},{25374,7963},{23907,8462},{25395,7972},{25389,7260},{25410,7266},{25422,7270},{25416,8473},{25407,7271},{25428,5614},{25425,7273},{25431,6285},{25440,7985},{25437,7282},{25443,5757},{25449,5149},{25452,7288},{25455,5630},{25467,7309},{25479,7310},{25485,8007},{25482,5550},{25491,7319},{25497,8500},{25506,7330},{25509,7331},{25512,8505},{25521,7340},{25530,8025},{25542,6899},{25545,7356},{25551,7312},{23532,8406},{25557,4158},{25556,0},{25564,5379},{25567,4292},{25568,0},{25574,0},{19267,8523},{25563,6425},{24835,6740},{24836,0},{13083,8526},{25586,0},{25589,0},{25577,0},{25581,5401},{25571,0},{25590,8058},{24171,8531},{25591,8058},{16242,8533},{22206,8538},{25613,0},{25607,0},{25622,0},{25610,0},{24204,8533},{25612,8535},{25632,7417},{25582,5049},{16287,8545},{25646,0},{25640,0},{24246,8550},{22266,8549},{25643,0},{25658,0},{25664,0},{25608,7407},{25670,0},{24273,8557},{25667,0},{19386,8560},{25676,0},{25679,0},{22272,8562},{24283,8558},{25694,0},{24291,8563},{24297,8566},{25697,0},{25703,0},{24306,8568},{25709,0},{25712,0},{22326,8572},{25722,8116},{25752,7471},{24363,8580},{25734,7451},{25743,8576},{25749,8119},{25725,8577},{25758,8476},{24399,8455},{25763,0},{25755,7477},{25764,7480},{25770,7485},{25773,6532},{25542,5546},{25780,4737},{22503,8595},{25788,5195},{25779,4737},{25275,7188},{25794,7509},{24405,8380},{25800,5481},{25806,7516},{25809,6571},{25821,8161},{25818,6575},{25815,8160},{25824,7521},{25830,7524},{25827,6581},{24507,8613},{25845,8173},{25848,5951},{25851,7537},{25866,5179},{25869,7544},{25872,7548},{25878,7099},{22647,8625},{25881,7551},{25884,7556},{25887,7557},{21090,8595},{25890,7563},{25893,7566},{25899,8632},{25902,8198},{25458,8468},{25917,8640},{24630,8643},{24821,0},{25953,7595},{25956,7500},{25971,6683},{25974,8226},{25977,7602},{25983,7603},{25986,6690},{25989,5484},{25995,7610},{26004,5965},{26007,7617},{26013,8446},{22719,8320},{26019,8245},{26013,7043},{26022,6713},{12295,8676},{26922,31},{12295,8975},{26034,8220},{26041,6725},{25959,8216},{26055,8684},{26040,6725},{24833,0},{24819,8274},{25935,7587},{25932,8957},{26951,0},{24819,8982},{12298,8978},{26964,31},{12298,8989},{26076,7659},{26073,6761},{26079,5551},{26082,6776},{26085,6790},{26097,5611},{26094,7676},{26118,5154},{24900,8701},{26109,8704},{26106,7692},{26127,7703},
{26139,7710},{26124,5691},{26130,8712},{17169,8714},{26154,7729},{26148,7718},{26157,7717},{26178,6921},{24960,8722},{26160,7735},{26169,8327},{26172,5642},{26175,5551},{16599,8721},{26199,6941},{26196,6930},{26181,8729},{26193,7762},{26190,7759},{26205,8738},{26211,5841},{26202,5838},{26223,8352},{26226,8353},{26127,5149},{23346,8746},{26235,8357},{26247,6997},{26250,7801},{26244,7795},{26259,5910},{26157,8751},{26265,7808},{21069,8757},{26274,7821},{26232,7830},{17892,8763},{21141,8764},{23142,8767},{26307,5992},{26304,5994},{26310,7844},{26313,7846},{26316,7849},{20910,8739},{26328,7083},{26325,6029},{26331,6038},{26337,7863},{26289,8780},{26343,6049},{26346,6056},{26352,7108},{23700,8785},{26361,7170},{26358,8788},{26367,8790},{26391,8437},{26394,8795},{26376,8724},{26388,8434},{26382,7916},{25320,8802},{26400,7920},{26397,8801},{26412,7198},{25323,8805},{26424,6853},{26418,7933},{26433,7214},{26436,7941},{23826,8737},{26439,7224},{26445,7240},{25383,8816},{26133,7959},{26163,5216},{26457,8818},{26466,8821},{26472,6277},{26478,5723},{26481,5233},{26454,5964},{26487,7283},{26496,6305},{26499,6307},{26502,7989},{26505,7996},{26511,8006},{19038,8839},{26202,8372},{26523,7326},{26142,7152},{26238,7266},{23433,8717},{26541,8034},{26472,5722},{26550,5366},{26547,7362},{25302,8780},{26079,7168},{26944,7366},{25560,8852},{26553,4190},{26565,4186},{26563,8047},{26561,0},{26576,0},{26572,5404},{26580,8054},{26605,6450},{26564,0},{25596,8863},{26560,8859},{26571,6437},{22200,8866},{24189,8864},{26597,0},{26585,0},{26606,0},{26608,8067},{26614,8079},{26603,0},{26610,8541},{24201,8869},{26615,0},{26616,8873},{26630,0},{26625,8080},{26639,0},{26638,8553},{26642,0},{26671,8093},{26633,0},{26636,0},{26655,8886},{26651,0},{25665,8884},{26654,0},{26672,0},{26666,0},{24282,8893},{26678,0},{26687,0},{26689,8898},{26690,0},{25669,8883},{26696,0},{26699,0},{25702,8899},{26708,0},{22317,8904},{26388,8423},{26715,7460},{25737,8828},{26718,7451},{26736,8129},{26733,8748},{26727,8131},{26730,8130},{26112,8494},{26724,8128},{26742,5846},{19593,8915},{25299,8916},{26751,5951},{24405,8918},{23850,8819},{26769,6549},{26774,0},{24456,8927},{26775,8599},{26778,8151},{26784,7194},{26790,7520},{26796,7522},{26808,8935},{26811,8614},{26814,6772},{26817,8176},{26820,8936},{26748,4981},{23826,8821},{26835,8189},{26832,7554},{26130,7917},{26754,8442},{26847,8194},{20316,8948},{26298,5838},{26862,8638},{26223,8642},{26136,5691},{26814,5599},{26406,5854},{25959,8791},{26877,8221},{24888,8822},{26880,7601},{25287,8843},{26892,7606},{26901,8243},{26526,5758},{26919,7625},{26184,5964},{26930,0},{22422,8953},{26937,8256},{26943,7366},{27633,8271},{26957,0},{26976,7668},{26973,8288},{26979,8696},{26985,7681},{26982,5598},{26988,6814},{27003,8711},{27000,8999},{26994,5676},{27018,8717},{27021,5480},{27027,6918},{27042,8340},{27039,8334},{27030,6923},{27036,8728},{27045,8339},{27048,7757},{20766,9011},{27051,7774},{23325,9020},{27069,8355},{25083,9028},{27087,7787},{27093,9030},{27096,6999},{27099,7806},{26973,9034},{27105,8372},{27111,7823},{27114,7832},{27120,7048},{26298,8994},{27123,7840},{16809,9042},{27132,7847},{27138,7850},{27141,8403},{24864,9048},{27147,5221},{27150,7097},{27156,7102},{27174,9059},{27168,8793},{26373,9022},{27171,8435},{27186,9064},{27189,9060},{27195,9066},{27207,8809},{26421,9068},{27213,8810},{27183,9070},{21663,9072},{23850,9073},{27222,8453},{26442,9075},{27228,7955},{26976,5854},{27234,8468},{27231,8466},{26460,9080},{27237,6274},{26475,9081},{27246,9083},{27258,7904},{27261,7294},{27219,7793},{27264,7296},{27273,5764},{21960,9093},{27276,8498},{27282,8017},{27024,5481},{27090,5854},{25518,9095},{27093,5503},{27291,8513},{27165,9054},{27300,7363},{27317,0},{27320,0},{27325,4457},{27321,4193},{27327,8859},{26586,9110},{27335,0},{27338,0},{27342,8539},{27359,0},{13371,9108},{27356,0},{27363,9120},{27349,8065},{27347,0},{27353,0},{27378,8073},{25626,9125},{27350,0},{25630,9124},{27366,7412},{27395,0},{27390,8086},{27389,0},{27383,0},
{25629,9124},{27384,8551},{22276,9135},{26643,9137},{22269,9134},{27370,9115},{26655,9136},{27396,8074},{26667,9139},{27423,8891},{27422,0},{27416,0},{22275,9135},{27426,8561},{27434,0},{26703,9151},{27444,9150},{26709,9153},{27464,0},{27465,8573},{27468,7474},{24331,9154},{27471,8906},{27474,8907},{27480,8412},{27486,9163},{27477,8353},{27483,8589},{19600,9166},{27495,8592},{27500,0},{26760,9086},{27504,5800},{24411,9169},{27510,8708},{27513,7502},{27519,8156},{27522,8601},{27516,8163},{27537,8611},{27540,8172},{27549,7663},{27552,5135},{26991,5550},{27561,8190},{27558,8191},{27564,7559},{27567,6321},{27573,5551},{27144,8781},{27579,8641},{27135,8955},{26961,8274},{25938,9195},{27588,5551},{27606,7605},{27021,7749},{27609,6856},{25926,9203},{27612,8246},{24093,8997},{26037,9207},{27105,6772},{27060,8907},{26972,0},{16455,9072},{12280,9104},{28155,31},{12280,9386},{24831,8986},{26070,9213},{24795,9213},{28113,9208},{27648,8697},{27645,8700},{27642,7684},{26115,9218},{27651,8997},{27657,5713},{27660,9002},{27666,5580},{27009,9221},{27669,8330},{27672,7763},{27675,8341},{27693,6947},{27684,7770},{27687,9021},{27681,7772},{27057,9226},{27696,8347},{27690,8736},{27072,9234},{27699,8744},{27705,7784},{16854,9237},{27717,7805},{27714,8754},{27720,5487},{27699,8380},{27735,7834},{27741,9043},{27744,7066},{27750,5838},{27759,5232},{27753,7864},{27756,8406},{27153,9254},{27765,8409},{27165,9245},{27777,8803},{27768,9258},{27183,9257},{27201,9257},{27783,9022},{27789,9241},{27792,7934},{27798,9265},{27801,5846},{25368,9268},{27666,9270},{27813,7727},{27816,8464},{27822,7976},{27678,8324},{27819,8471},{27828,7274},{27834,9084},{27837,7987},{27840,5854},{21894,9281},{27711,8492},{27813,8836},{21381,9283},{27855,8014},{27858,8842},{27177,9254},{27861,9096},{27864,8509},{27867,8026},{27870,8033},{27873,8035},{27876,7834},{27883,7382},{26568,9295},{27896,0},{27889,9113},{27893,0},{27882,8071},{27369,9308},{27888,9113},{27891,9303},{27923,0},{27920,0},{27908,0},{27915,9309},{27914,0},{27899,0},{24195,9312},{27944,0},{27935,0},{27932,0},{27918,9307},{24270,9315},{27962,0},{26646,9317},{27959,0},{27934,9133},{26661,9315},{27977,0},{27974,0},{27971,0},{27980,0},{27964,9322},{27983,0},{26631,9330},{27968,0},{27998,0},{27995,0},{26691,9333},{28007,0},{28004,0},{25678,9323},{28010,0},{24330,9337},{28014,8582},{28022,0},{28017,7284},{28026,9164},{28023,8913},{27501,9345},{28029,8136},{27663,9156},{28038,9089},{28043,0},{28044,8138},{19599,9349},{28056,8139},{28050,9351},{28065,8929},{28068,8158},{28074,8612},{28080,8619},{28083,6608},{28086,8187},{28092,9363},{27771,7785},{28098,7562},{27879,7100},{28077,8935},{28089,5305},{28104,7023},{28107,8207},{22749,9280},{28110,6949},{28116,8647},{28119,9197},{22797,9286},{24399,9240},{25863,9364},{28122,8965},{28125,8231},{28128,8233},{27846,8314},{28110,5177},{27651,5697},{22719,9378},{28137,9205},{22860,9378},{27735,8781},{27786,8763},{28143,8286},{28140,8681},{26061,9370},{28152,8395},{24816,9213},{27638,0},{26929,9371},{28115,0},{28166,0},{93,9555},{28179,8305},{28176,7696},{28182,8707},{28185,8715},{28191,9004},{28194,5798},{20748,9400},{28197,8329},{28209,7769},{28230,7778},{28227,8740},{28218,7703},{27066,9404},{28215,5854},{23337,9408},{28221,8743},{28236,7780},{28239,7790},{28242,7798},{28248,8371},{28245,7807},{28251,7814},{27726,9407},{27108,9404},{28254,7825},{28257,5305},{28260,7069},{27747,9421},{26322,9422},{28275,9423},{28272,7101},{28278,9053},{28281,7870},{28287,8743},{28292,0},{28293,9260},{28299,9262},{28302,9435},{28308,9408},{27807,9437},{28314,8460},{28320,7267},{28323,7269},{27825,9442},{28329,8729},{28332,7979},{28338,7983},{28215,8826},{28344,8486},{28194,9089},{28347,8487},{27852,9452},{28362,5762},{28368,8508},{28371,8512},{28374,8028},{28380,8036},{28383,9293},{28215,9250},{28167,8272},{25603,9463},{28388,0},{28399,9119},{28391,0},{28396,9299},{27903,9464},{28403,0},{28419,9475},{27940,9474},{28409,0},{28406,0},{28413,9472},{28412,0},{28395,9476},{28445,0},{27399,9479},{28424,0},
{28433,0},{27948,9480},{28387,9300},{28454,0},{28460,0},{28448,0},{28449,9485},{28478,0},{27429,9488},{27984,9488},{26682,9490},{28484,0},{27963,9495},{27435,9493},{28488,9497},{28452,9324},{28496,0},{27457,9498},{28507,8571},{25713,9502},{28511,0},{28512,8127},{28518,7486},{28524,9398},{28536,9511},{28527,9406},{28547,0},{28548,8141},{28551,8140},{28542,8808},{20682,9519},{28554,8770},{28560,8170},{28563,8182},{28566,9042},{28572,8948},{28578,8197},{28581,5454},{24624,9522},{28590,9529},{23835,9531},{28599,6660},{28174,8990},{28602,8215},{28307,0},{28304,0},{28149,9391},{28608,9200},{28218,8742},{28287,8785},{28617,8664},{26001,9542},{24741,9543},{28635,8251},{28632,8250},{27063,9510},{28641,7631},{27525,9531},{28653,8262},{28647,9382},{28674,9557},{28686,7699},{28680,7700},{28188,9561},{28689,7721},{28692,7736},{28698,9567},{28704,8739},{28719,9572},{28710,9569},{28725,9026},{25074,9574},{28713,5316},{23379,9570},{28731,5599},{28737,7810},{28740,9241},{28749,8379},{28755,9246},{28758,9045},{28761,8773},{28767,9590},{28773,8783},{26301,9589},{28296,9593},{28783,9595},{28790,0},{28787,0},{28793,0},{13227,9594},{14007,9594},{28796,0},{13512,9594},{14001,9594},{14019,9594},{28797,8817},{13518,9594},{28800,8467},{28806,7978},{28803,8823},{28815,5550},{13998,9594},{26484,9604},{13515,9594},{13221,9594},{18834,9594},{25446,9606},{26490,9580},{16044,9594},{18885,9594},{28815,9241},{28821,9282},{28830,8000},{28710,7081},{13239,9594},{28833,8501},{28839,8027},{28842,8029},{26175,9615},{28707,8722},{28848,7891},{28851,6031},{27306,9618},{29093,0},{28863,9300},{28862,0},{28861,8540},{25602,9623},{28874,0},{28877,0},{28868,0},{28901,0},{28895,0},{28886,0},{27954,9630},{28873,9625},{28434,9629},{28916,0},{28883,0},{27939,9636},{28919,0},{28907,0},{28931,0},{27987,9642},{28467,9640},{28943,0},{28940,0},{28952,0},{28949,0},{27442,9651},{28955,0},{27456,9653},{25696,9650},{28964,0},{28970,0},{28974,9442},{28977,8919},{28032,9561},{28980,9510},{28986,9514},{28985,0},{28992,9665},{28971,9663},{28041,9663},{28998,8147},{28974,5487},{16638,9616},{24057,9669},{29010,5722},{28818,8621},{28845,8620},{29013,5763},{28731,9051},{16926,9670},{29016,9525},{28995,8830},{29019,7799},{29022,8403},{28851,5195},{29025,8209},{28596,9677},{29034,7586},{29039,0},{28995,9680},{29040,5697},{28848,5485},{29043,4052},{29046,4052},{12687,9594},{15039,9594},{28162,9683},{28782,4052},{12384,9594},{13542,9594},{28974,8366},{29058,9685},{17274,9669},{28992,8440},{28554,9687},{29019,7785},{29067,7623},{28638,9690},{25056,9606},{25170,9674},{28089,9590},{26820,9669},{29061,7582},{28557,9687},{28857,9556},{28758,7935},{29051,0},{29085,8955},{28161,9847},{29154,9054},{29100,9005},{29097,9698},{29103,9008},{29106,7764},{29109,7767},{29112,9025},{29121,9708},{29118,9027},{29115,9576},{29133,9710},{25119,9713},{29136,7812},{29142,8759},{29145,8392},{29151,8282},{29157,7868},{29160,7871},{29168,0},{28290,9721},{28782,9724},{29163,9723},{29170,9721},{29165,0},{13512,9723},{13221,9723},{29176,9598},{29173,9597},{29180,0},{13998,9723},{14001,9724},{13227,9723},{29172,9725},{29175,9728},{13515,9723},{14007,9723},{29183,0},{29189,0},{13227,9724},{14019,9723},{13518,9724},{13221,9725},{29192,0},{14001,9723},{13221,9724},{29201,0},{13518,9725},{28317,9732},{14019,9724},{29195,0},{29202,5601},{16044,9723},{13227,9728},{13512,9725},{13221,9728},{14019,9725},{13518,9728},{13515,9724},{13998,9724},{14007,9725},{14001,9728},{13227,9725},{13512,9724},{14001,9725},{29208,9445},{14007,9724},{27831,9735},{29222,0},{29211,9085},{29216,0},{29217,8478},{14019,9728},{13518,9723},{16044,9724},{13515,9725},{18885,9723},{13512,9728},{29228,0},{29225,0},{14007,9728},{13998,9725},{18834,9723},{29229,9744},{16044,9725},{18834,9724},{29237,0},{29240,0},{29244,9609},{13515,9728},{28824,9747},{13239,9723},{27225,9749},{18885,9724},{16044,9728},{18834,9725},{13998,9728},{28353,9750},{18885,9725},{18834,9728},{26529,9752},{13239,9724},{18885,9728},{16797,9753},{29262,9219},{13239,9725},{29271,7872},
{27297,9756},{13239,9728},{27309,9758},{29483,0},{29286,8874},{29289,9622},{29285,0},{29295,9766},{29294,0},{29290,9767},{29307,9634},{29321,0},{29318,0},{29315,0},{29307,9637},{28461,9774},{28473,9778},{29330,0},{29340,9645},{29313,9486},{29338,9644},{29345,0},{29337,9644},{27438,9782},{26700,9784},{29360,0},{27441,9787},{29366,0},{29369,0},{29376,9507},{29382,9793},{28983,9795},{29390,0},{28059,9798},{29402,0},{29256,5758},{29387,0},{29205,9175},{29202,8492},{29406,8604},{29409,8735},{29389,9795},{29412,9359},{29415,8184},{29421,9806},{25800,9753},{29430,8468},{29433,9190},{28584,9812},{29097,8953},{29103,9292},{29442,9049},{28101,9813},{29445,5284},{29151,6367},{29451,8956},{29459,0},{29097,8917},{29463,8220},{29460,8648},{29466,9435},{12384,9724},{29471,0},{13542,9723},{29474,0},{15039,9723},{13542,9724},{29477,0},{12687,9724},{13542,9725},{29480,0},{12687,9725},{13542,9728},{15039,9724},{29388,9795},{12384,9723},{29172,4052},{29486,0},{29489,0},{12687,9723},{29492,0},{29184,4052},{12384,9725},{29493,8656},{12687,9728},{15039,9725},{29136,5138},{29247,5838},{29496,8961},{12384,9728},{15039,9728},{24951,9752},{29379,9091},{29505,8239},{24732,9754},{29508,9243},{24744,9732},{29517,9692},{29259,5854},{29520,6730},{28644,9841},{29526,9698},{28650,9844},{29529,8683},{29538,9695},{29535,9760},{29601,9590},{29877,10012},{30033,9818},{29553,8328},{29556,7742},{29559,9565},{29562,9561},{29567,0},{29568,9709},{29577,8747},{27708,9858},{29571,7792},{29580,9578},{29583,9581},{28746,9862},{27729,9863},{17394,9863},{29592,8395},{29595,8398},{29552,0},{29598,9592},{29169,9868},{29609,0},{29612,0},{29618,0},{28783,9871},{13515,9873},{29627,0},{13512,9873},{29624,0},{13518,9873},{29633,0},{29630,0},{15024,9873},{13998,9873},{29639,0},{29642,0},{29654,0},{29657,0},{29648,0},{29651,0},{14007,9873},{29645,0},{29684,0},{18786,9873},{29666,0},{29675,0},{29672,0},{23922,9873},{29681,0},{29669,0},{16053,9873},{29690,0},{29185,9897},{29696,0},{29700,6276},{29705,0},{29708,0},{29693,0},{29711,0},{29714,0},{18834,9873},{29720,0},{29723,0},{29717,0},{29748,9914},{29726,0},{29741,0},{29732,0},{29729,0},{29747,0},{29738,0},{29735,0},{29754,9920},{14019,9873},{29768,0},{29765,0},{29777,0},{18885,9873},{29774,0},{29780,0},{29771,0},{29789,0},{29796,9447},{29795,0},{29792,0},{13239,9873},{29804,0},{29801,0},{29816,0},{29811,8488},{29817,9090},{29831,0},{29834,0},{29823,9450},{29828,0},{29837,0},{29838,8496},{29846,0},{29843,0},{17223,9866},{28365,9949},{29855,0},{24093,9914},{29856,8482},{29868,9955},{29277,9958},{29882,0},{29885,0},{28878,9962},{29891,0},{29896,9627},{29897,0},{29912,0},{29900,0},{29307,9968},{28923,9969},{29915,0},{29927,0},{29936,0},{29918,0},{29931,9648},{29939,0},{27448,9979},{29942,0},{29948,0},{28500,9983},{29957,0},{29960,0},{29963,0},{29956,9661},{29967,8594},{29970,8921},{26766,9991},{29385,9988},{27528,9993},{29982,5618},{29988,9667},{29994,9181},{29997,8941},{30000,9808},{29427,10001},{29562,7247},{30009,8950},{30012,8952},{30015,8635},{30018,9192},{30027,5456},{30030,9194},{30180,9552},{28605,10015},{25950,10013},{30042,8649},{30048,9198},{12687,9873},{30053,0},{30059,0},{30065,0},{20034,9873},{30068,0},{30077,0},{30074,0},{30086,0},{30083,0},{30089,0},{30095,0},{30098,0},{15039,9873},{30107,0},{30116,0},{30113,0},{29052,10039},{30125,0},{30122,0},{30126,5460},{30129,9537},{30132,8962},{30137,0},{30140,0},{28614,10047},{29742,8620},{29499,10048},{29064,10049},{30153,8970},{30150,8969},{30156,8972},{27009,9864},{30159,8977},{30162,8836},{30168,10055},{30171,9209},{29088,10059},{30174,9210},{28678,9849},{29549,0},{30747,8682},{30759,8269},{30195,8342},{28203,10066},{30201,9402},{30204,8354},{30210,7791},{30221,0},{30215,0},{30216,7802},{30222,8752},{30228,8376},{30225,8756},{25143,10077},{30234,7768},{30635,0},{30237,5330},{28764,10080},{30246,9590},{29169,10084},{30249,10084},{13509,10086},{13224,10087},{30266,0},{13224,10086},{30279,10094},{30278,0},{30272,0},{14004,10087},{29634,10091},{30294,9886},{14004,10086},{30290,0},
{12475,10095},{29676,10100},{30303,10102},{30311,0},{29661,10099},{13240,10110},{16041,10086},{12580,10113},{12529,10106},{30324,10109},{30315,9895},{30347,0},{30342,10116},{29184,10120},{30371,0},{28809,10117},{30357,10121},{13221,10120},{30372,10126},{30390,10131},{30402,10133},{30387,10132},{13509,10087},{13227,10120},{30405,8831},{13518,10120},{30383,0},{30410,0},{14001,10120},{16041,10087},{29784,10137},{30429,9927},{30422,0},{29805,10146},{30435,7992},{30450,10149},{14019,10120},{13512,10120},{30446,0},{30459,8490},{30456,8491},{13515,10120},{14007,10120},{30462,10155},{30468,8838},{30477,8840},{13998,10120},{16044,10120},{30486,5798},{30489,8844},{18834,10120},{29265,10165},{30498,9953},{18885,10120},{30501,9101},{30504,8039},{30515,0},{28896,10170},{29892,10169},{29304,10172},{30520,9773},{30519,9967},{30522,9775},{30536,0},{29316,10175},{29916,10176},{30531,9637},{29922,10179},{29355,10181},{28885,10171},{30546,9634},{27447,10184},{30555,10186},{29952,10186},{28497,10187},{28504,10188},{30566,0},{28971,10186},{30557,0},{30568,9986},{29391,10189},{30567,10190},{30573,9988},{30579,8597},{30585,9801},{29392,10196},{30762,8270},{27876,10082},{30591,9995},{30594,9668},{30597,8931},{30582,7503},{13239,10120},{30600,9182},{30606,8942},{30603,8185},{30609,8946},{30006,10204},{30618,8199},{30617,0},{30624,10007},{30024,10207},{30630,9816},{29028,10209},{27735,10062},{30639,10214},{30636,8958},{30645,9199},{14028,10086},{30650,0},{30054,10217},{12508,10220},{30069,10219},{30666,10223},{30672,10225},{30099,10227},{30684,10034},{30263,0},{14028,10087},{30689,0},{30108,10230},{30696,10231},{13542,10120},{30699,9201},{30705,10234},{30360,4052},{25980,10236},{30716,0},{15039,10120},{12384,10120},{12687,10120},{30726,9568},{30723,9540},{30729,9541},{30732,8968},{20751,10117},{30738,8971},{30708,4987},{30741,9691},{26031,10248},{30750,9694},{30755,0},{28170,10063},{30768,9555},{30756,8980},{30822,8778},{30780,9018},{30895,4220},{31302,8689},{31130,0},{30779,0},{30783,8350},{28233,10262},{30791,0},{30798,10071},{30800,0},{30796,10263},{30793,10267},{30803,0},{30809,0},{30804,7818},{30810,9584},{30813,8760},{30819,5268},{30825,9867},{30833,0},{29167,10276},{30839,0},{30836,0},{30857,0},{30845,0},{12474,10284},{30866,0},{30882,10107},{12528,10293},{30892,4221},{30886,4512},{30890,0},{30906,10122},{30894,4176},{30911,0},{30918,10125},{30923,0},{30917,0},{30361,10305},{30885,4413},{30891,4193},{30938,0},{30947,0},{30941,0},{30944,0},{30956,0},{30959,0},{30949,10314},{13518,10316},{13221,10316},{30983,0},{30974,0},{30980,0},{30992,0},{30989,0},{13227,10316},{30995,0},{30998,0},{13512,10316},{31002,8012},{14001,10316},{14019,10316},{31010,0},{31005,9453},{31013,0},{13515,10316},{14007,10316},{31014,9612},{31017,8511},{31022,0},{13998,10316},{31023,9459},{31026,9098},{16044,10316},{31031,0},{31034,0},{31037,0},{29359,10358},{28963,10364},{31043,0},{29310,10346},{28918,10348},{31046,0},{31049,0},{31052,0},{31058,0},{31055,0},{31047,10350},{31064,0},{31067,0},{31070,0},{31059,9783},{28956,10353},{31073,0},{31076,0},{31085,0},{31094,0},{31091,0},{31097,0},{28503,10366},{31109,0},{31115,0},{31112,0},{31116,10192},{31121,0},{29959,10373},{31122,9354},{31117,10192},{30773,0},{31134,9177},{31137,8933},{31140,9178},{18834,10316},{30778,9855},{18885,10316},{30214,10266},{31149,8618},{13239,10316},{31155,6367},{31154,0},{31158,8947},{31161,9365},{31173,8637},{31170,8636},{13542,10389},{12687,10389},{12384,10389},{31176,8211},{31181,0},{31167,4052},{15039,10389},{31133,0},{30827,0},{31184,0},{15039,10316},{31266,8236},{14007,10389},{13998,10389},{30826,10377},{16044,10389},{18834,10389},{18885,10389},{31190,0},{31185,8654},{31191,8655},{31196,0},{31200,10020},{31203,4169},{31206,10221},{30871,4188},{30870,4158},{31212,10226},{31296,9760},{31127,0},{13518,10389},{14019,10389},{14001,10389},{12304,10405},{12304,10406},{31226,0},{12303,10407},{12508,10401},{12304,10411},{31238,0},{13227,10389},{13221,10389},{31247,0},{30711,10416},{13512,10389},
{13542,10316},{31252,10413},{30948,4052},{12687,10316},{31239,10417},{31256,0},{31262,0},{31259,0},{31241,0},{13515,10389},{12384,10316},{23223,10385},{31263,9377},{31269,8966},{13239,10389},{31274,0},{31275,7622},{31278,9837},{31281,6716},{31284,9206},{31287,9693},{30776,0},{31294,10062},{31290,8686},{31182,4413},{30819,5296},{30774,10439},{13239,10568},{31671,8951},{31633,10376},{29148,10453},{31128,10544},{13239,10490},{31321,10436},{31310,0},{30207,10440},{31326,8359},{31325,0},{30795,10443},{31329,10264},{31340,0},{31330,10073},{31334,0},{31343,0},{30792,10448},{30795,10445},{31344,10449},{31345,10269},{31348,10450},{31352,0},{31353,8761},{31356,8762},{31307,0},{31306,9850},{28284,10454},{31370,0},{30255,10455},{31371,10280},{30267,10458},{31377,10289},{30312,10460},{31383,10290},{30333,10462},{31392,10298},{31313,0},{30354,10467},{31400,0},{31397,0},{30924,10472},{31424,0},{31420,10127},{30360,10473},{13221,10473},{31419,10316},{31431,10317},{31437,10142},{30948,10480},{31434,10138},{31443,10144},{31446,10322},{13221,10480},{31441,10324},{13518,10473},{31454,0},{14019,10473},{13227,10473},{31451,0},{31457,0},{31440,10487},{13512,10473},{14001,10473},{31475,0},{31468,10324},{31467,10490},{31467,10487},{13227,10480},{13515,10473},{13518,10480},{13221,10487},{31484,0},{31468,10329},{31471,10495},{14007,10473},{31493,0},{31490,0},{31487,0},{31500,10160},{13221,10489},{13518,10487},{13227,10487},{14019,10480},{13512,10480},{14001,10480},{31499,0},{13227,10490},{31505,0},{13515,10487},{13512,10489},{13227,10489},{13515,10480},{13512,10487},{31508,0},{13998,10473},{31509,8845},{16044,10473},{13512,10490},{13515,10489},{31514,0},{13221,10490},{13518,10489},{14019,10487},{13515,10490},{14007,10480},{14001,10487},{31521,8848},{31520,0},{31524,8516},{13518,10490},{18834,10473},{14019,10489},{13998,10480},{14007,10487},{14001,10489},{31529,0},{14019,10490},{13542,10511},{31534,10345},{12687,10511},{13542,10512},{31318,10258},{31550,0},{31551,10515},{29331,10518},{31560,10519},{31552,10347},{31563,10522},{31571,0},{30540,10526},{31581,10183},{31586,0},{29943,10530},{31541,0},{31086,10531},{29370,10532},{31607,0},{30555,10531},{30576,10536},{31614,10537},{31619,0},{30570,10540},{31621,10542},{31628,0},{31637,0},{31638,8934},{31643,0},{31309,10259},{32340,9855},{31309,10781},{16044,10480},{18885,10473},{31646,0},{14001,10490},{14007,10489},{13998,10487},{18834,10480},{16044,10487},{31652,0},{13998,10489},{14007,10490},{18834,10487},{31537,10552},{18885,10480},{13239,10473},{16044,10489},{13998,10490},{31658,0},{18885,10487},{16044,10490},{18834,10489},{31533,10512},{31662,9185},{13239,10480},{18885,10489},{18834,10490},{13227,10511},{13239,10487},{18885,10490},{12687,10512},{13512,10512},{15039,10511},{13512,10511},{13227,10512},{13515,10511},{13221,10511},{31670,0},{12687,10555},{15039,10512},{13542,10555},{13515,10512},{13227,10555},{13239,10489},{13518,10511},{13221,10512},{13512,10555},{15039,10555},{31168,10559},{31676,0},{31164,10558},{31679,0},{31682,0},{13515,10555},{31685,0},{31688,0},{31692,4052},{31691,0},{31697,0},{13542,10564},{31700,0},{31693,10275},{31701,4052},{12384,10568},{12687,10564},{31704,4052},{13542,10568},{12384,10564},{31707,4052},{12384,10567},{13542,10487},{12687,10480},{31712,0},{13239,10555},{18885,10569},{31884,8688},{29544,10630},{18834,10511},{16044,10512},{18834,10512},{18885,10511},{13239,10511},{18834,10555},{13239,10512},{31718,0},{18885,10555},{31692,10568},{14001,10564},{31721,0},{31727,0},{31730,0},{14019,10567},{14007,10564},{14001,10568},{13518,10569},{16044,10564},{14007,10568},{14001,10567},{13998,10564},{31733,0},{14007,10567},{14019,10569},{13998,10568},{14001,10569},{16044,10568},{18834,10564},{13998,10567},{14007,10569},{31735,10579},{31739,0},{31737,10578},{31197,10581},{12304,10582},{31757,0},{31879,10438},{31316,0},{31543,10513},{13998,10511},{14007,10512},{14224,4127},{32703,10504},{14224,10902},{16044,10511},{14007,10555},{31772,0},{13998,10555},{18885,10512},{16044,10555},
{13221,10564},{31775,0},{31778,0},{14001,10511},{13518,10512},{14019,10511},{31781,0},{31784,0},{14001,10512},{14007,10511},{13221,10555},{31785,10409},{14019,10512},{13221,10567},{13518,10568},{13518,10555},{13518,10564},{13221,10568},{14019,10564},{13515,10567},{31796,0},{14019,10568},{13512,10569},{31802,0},{13518,10567},{13221,10569},{13998,10512},{14001,10555},{31242,10599},{13515,10569},{14019,10555},{31806,10239},{31809,8963},{12687,10473},{31805,0},{31814,0},{12384,10473},{31419,4052},{15039,10473},{13542,10480},{31817,0},{13542,10473},{31829,0},{31826,0},{31823,0},{12687,10487},{15039,10564},{13542,10567},{12687,10568},{13227,10564},{15039,10480},{13542,10489},{31844,0},{31440,4052},{31847,0},{12687,10567},{15039,10568},{12384,10569},{13542,10569},{31848,9834},{31851,8666},{13227,10568},{13512,10564},{31856,0},{31859,0},{13227,10569},{13512,10567},{16044,10567},{12384,10480},{18834,10568},{13515,10568},{31461,4052},{18885,10564},{12687,10489},{15039,10487},{15039,10567},{13542,10490},{12687,10569},{31470,4052},{12384,10489},{13512,10568},{13515,10564},{13227,10567},{31715,0},{30735,10621},{31861,10571},{12384,10487},{16044,10569},{18834,10567},{31467,4052},{13998,10569},{18885,10568},{15039,10489},{12687,10490},{31713,10620},{31869,7626},{15039,10569},{12384,10490},{15039,10490},{12384,10512},{31665,4052},{12384,10555},{31536,4052},{12384,10511},{13239,10564},{31874,0},{18885,10567},{18834,10569},{31533,4052},{31875,8259},{31742,0},{13239,10567},{31314,10626},{30183,10627},{31883,0},{31895,0},{33059,0},{33061,10618},{31294,10858},{31910,0},{31918,10441},{31916,0},{31925,0},{31917,10642},{31931,0},{31934,0},{31336,10641},{31940,0},{31941,10645},{31949,0},{31955,0},{31961,0},{31347,10654},{31351,10655},{21129,10656},{31967,0},{31907,0},{30634,10635},{31906,10435},{31971,10081},{31979,0},{14004,10660},{31985,0},{31986,10286},{13509,10660},{31989,10283},{13224,10660},{31998,10665},{30873,10664},{32001,10293},{32004,10667},{32010,10304},{32027,0},{16041,10660},{30903,10674},{32030,0},{32036,0},{32033,0},{30960,10679},{32045,0},{30969,10684},{32057,0},{32060,0},{32063,0},{32072,0},{32069,0},{32081,0},{32087,0},{32084,0},{32105,0},{32093,0},{32096,0},{32099,0},{32102,0},{32111,0},{32108,0},{32117,0},{32123,0},{32120,0},{32131,10499},{31470,10710},{32141,0},{32138,0},{32150,0},{32144,0},{32147,0},{32130,10718},{32153,0},{32159,0},{32168,0},{32177,0},{32174,0},{32183,0},{32171,0},{32165,0},{32195,0},{32192,0},{13227,10710},{32189,0},{32184,8846},{13227,10718},{32204,0},{32155,10504},{13512,10710},{32201,0},{32210,0},{32207,0},{32154,10732},{32216,0},{32213,0},{13512,10718},{13515,10710},{13227,10732},{32219,0},{13221,10710},{32225,0},{32228,0},{32231,0},{32234,0},{32240,0},{32243,0},{32237,0},{13512,10732},{13515,10718},{13518,10710},{13221,10718},{32249,0},{32252,0},{13515,10732},{32255,0},{32261,0},{32258,0},{31898,0},{32270,0},{29919,10755},{32273,0},{32276,0},{32280,10759},{31575,10761},{29316,10761},{32279,0},{32282,0},{32289,10529},{32298,9786},{32297,0},{32303,0},{32304,10534},{32312,0},{32313,10372},{31614,10773},{32324,0},{32332,10542},{32327,0},{32336,0},{31620,10776},{32331,10776},{32338,9855},{32337,10069},{31320,10639},{31927,10641},{32348,0},{32354,0},{32351,0},{31922,0},{32360,0},{32363,0},{32366,0},{32372,0},{32369,0},{14001,10710},{32381,0},{32378,0},{31952,0},{32387,0},{32384,0},{32396,0},{32390,0},{14007,10710},{14001,10718},{32399,0},{14019,10710},{13518,10718},{13221,10732},{31536,10800},{32414,0},{32411,0},{32408,0},{32405,0},{13518,10732},{14019,10718},{14019,10732},{13998,10710},{14007,10718},{14001,10732},{32401,10384},{32415,9523},{32400,10555},{16044,10710},{32426,0},{31958,0},{32423,0},{15039,10732},{32429,0},{14007,10732},{13998,10718},{16044,10718},{18834,10710},{13227,10800},{13542,10800},{13998,10732},{32444,0},{32438,0},{32450,0},{32447,0},{32453,0},{32435,0},{32441,0},{32456,0},{15039,10800},{12687,10800},{32468,0},{32465,0},{13512,10800},{32462,0},{32458,10205},{31901,0},{32474,0},{32471,0},
{32457,10389},{32480,0},{32483,0},{13515,10800},{13542,10819},{32486,0},{32489,0},{32492,0},{12687,10819},{13542,10833},{15039,10819},{13227,10819},{31167,10833},{32499,4052},{32507,0},{32500,10393},{12384,10833},{12384,10819},{32516,0},{32499,10564},{12687,10833},{32457,4052},{32525,0},{15039,10833},{32534,0},{32537,0},{32549,0},{32546,0},{32540,0},{32543,0},{32555,0},{32552,0},{32561,0},{32558,0},{32570,0},{33065,0},{32579,0},{32582,0},{14224,4127},{33828,10739},{14224,11277},{16044,10800},{32585,0},{32588,0},{32591,0},{18885,10800},{13998,10819},{32594,0},{14001,10833},{16044,10819},{32603,0},{32531,0},{12475,10865},{32597,0},{13239,10800},{14007,10833},{32606,0},{32609,0},{18834,10819},{32595,4188},{16044,10833},{18885,10819},{32567,0},{13998,10833},{32624,0},{32621,0},{32627,0},{18834,10833},{32642,0},{32633,0},{32630,0},{32636,0},{32639,0},{13239,10819},{32657,0},{32648,0},{32654,0},{32651,0},{18885,10833},{32663,0},{32660,0},{32666,0},{32669,0},{32674,10580},{32678,0},{32679,10218},{14028,10660},{32684,0},{31995,10284},{32572,10438},{18834,10732},{18834,10718},{18885,10710},{16044,10732},{18885,10718},{18885,10732},{13239,10710},{13239,10718},{14001,10800},{32699,0},{32709,5087},{32702,0},{32714,0},{13593,10732},{13998,10800},{32717,0},{14019,10819},{13221,10833},{14001,10819},{32723,0},{18834,10800},{13518,10833},{32726,0},{32729,0},{32732,0},{14007,10819},{13221,10800},{32747,0},{32744,0},{32741,0},{29163,10916},{13518,10800},{31230,10921},{32762,0},{32768,0},{32756,0},{32748,10597},{32759,0},{14019,10800},{14019,10833},{32774,0},{32771,0},{32786,0},{13512,10819},{32780,0},{32783,0},{32777,0},{32789,0},{14007,10800},{32810,0},{13518,10819},{32813,0},{32819,0},{32795,0},{13221,10819},{32807,0},{32798,0},{32804,0},{13227,10833},{32822,0},{13515,10819},{32831,0},{32828,0},{12304,10941},{32855,0},{31830,10950},{32846,0},{32849,0},{32840,0},{32843,0},{13512,10833},{32879,0},{32882,0},{32876,0},{32873,0},{32885,0},{32870,0},{32867,0},{32891,0},{32906,0},{32903,0},{32897,0},{32900,0},{13515,10833},{32910,8240},{31740,10891},{32907,8670},{32918,0},{32915,0},{32933,0},{13239,10833},{32951,0},{32960,0},{32954,0},{32957,0},{32930,0},{32927,0},{32942,0},{32945,0},{32939,0},{32936,0},{32948,0},{32975,0},{32978,0},{32972,0},{32963,0},{32966,0},{32969,0},{13542,10710},{33005,0},{32990,0},{32996,0},{33002,0},{32982,8675},{12384,10710},{32154,4052},{32999,0},{32993,0},{33011,0},{33008,0},{33014,0},{15039,10718},{12687,10732},{32130,4052},{12687,10710},{29514,11005},{13542,10718},{32400,4052},{12384,10800},{33041,0},{33038,0},{33035,0},{33032,0},{33029,0},{33023,0},{33026,0},{33020,0},{13542,10732},{15039,10710},{12687,10718},{33050,0},{32306,0},{33053,0},{12384,10732},{12384,10718},{32196,4052},{31968,5762},{33056,0},{32576,0},{31897,10629},{31854,11020},{32573,0},{33068,0},{31913,0},{33820,10632},{31867,11441},{31920,11031},{33092,0},{33101,0},{31926,11032},{33102,11035},{33110,0},{33114,11037},{31335,11032},{31956,11040},{33128,0},{27117,11044},{31962,11045},{30816,11046},{33138,10657},{33149,0},{33157,10093},{33156,10093},{33155,0},{30846,11052},{12580,11055},{33164,0},{12475,11053},{33170,0},{12529,11058},{12529,11059},{13240,11061},{33191,0},{32028,11062},{32022,11062},{31410,11065},{32046,11067},{12580,11068},{31449,11069},{33198,11069},{13240,11070},{33213,10688},{32076,11073},{33222,10486},{33231,10493},{32088,11078},{33246,11081},{33249,10704},{33240,11086},{33252,11085},{32127,11087},{33269,0},{33272,0},{33276,11091},{33282,11093},{33290,0},{33291,10726},{33309,11100},{33294,11099},{32197,11109},{33324,10505},{33323,0},{33315,11106},{33332,0},{33341,0},{33342,11111},{33329,0},{33338,0},{33353,0},{33354,11119},{33362,0},{33368,0},{33370,10741},{33374,0},{33365,0},{33369,11125},{32244,11127},{33390,11129},{33398,0},{33376,10344},{33401,0},{33375,10511},{33407,0},{33404,0},{13542,11125},{15039,11123},{12687,11125},{12687,11123},{13227,11123},{33416,0},{15039,11125},{33063,11142},{29929,11144},{33435,11143},{31572,11146},
{33450,11151},{33434,0},{32286,11148},{33447,10360},{33443,0},{33458,0},{33461,0},{31599,11155},{33470,0},{29367,11157},{33476,0},{31108,11159},{33485,0},{33489,10779},{33489,10777},{33490,10545},{33490,10547},{33497,0},{33494,0},{33500,0},{33506,0},{33503,0},{33509,0},{33516,10785},{33522,11175},{33531,11178},{33539,0},{33417,11183},{33555,11184},{33566,0},{33563,0},{33581,0},{33572,0},{33575,0},{33578,0},{33588,11195},{13221,11123},{13227,11125},{13512,11123},{33596,0},{33599,0},{33602,0},{33605,0},{33614,0},{33608,0},{33611,0},{33615,8943},{33620,0},{33623,0},{13221,11125},{13518,11123},{13512,11125},{13515,11123},{13542,11123},{33635,0},{33644,0},{33641,0},{13515,11125},{13518,11125},{14019,11123},{14001,11123},{33656,0},{33650,0},{33647,0},{33653,0},{33666,11223},{33659,0},{33689,0},{33686,0},{33698,0},{14019,11125},{33690,11231},{33704,0},{33720,11239},{33716,0},{33728,0},{33725,0},{33740,0},{33746,0},{33743,0},{33755,0},{33752,0},{33749,0},{33761,0},{33764,0},{33767,0},{33773,0},{33779,0},{33776,0},{30243,11050},{32526,11260},{33785,0},{33795,11266},{33801,11264},{33786,11263},{33807,11268},{33810,11271},{34429,11019},{18885,11125},{33825,11274},{33834,5087},{33839,0},{13593,11123},{13239,11125},{13746,11125},{33851,0},{33847,10865},{33860,0},{33854,0},{33863,0},{33871,11292},{32589,11291},{33881,0},{33872,0},{33890,0},{33899,0},{33896,0},{33893,0},{33905,0},{33917,0},{33912,11302},{33930,11309},{33935,0},{33939,11312},{33950,0},{33954,11317},{12508,11323},{33974,0},{12475,11326},{32691,11479},{34436,0},{33995,0},{33986,0},{33989,0},{33998,0},{33992,0},{16044,11123},{34001,0},{18834,11123},{16044,11125},{34010,0},{18834,11125},{34016,0},{18885,11123},{14224,4127},{35151,11109},{14224,11718},{34025,0},{34028,0},{34034,0},{34037,0},{14007,11123},{14001,11125},{34040,0},{34046,0},{34049,0},{34061,0},{14007,11125},{13998,11123},{34064,0},{13998,11125},{34074,10596},{34079,0},{34094,0},{12508,11360},{34089,11365},{34100,0},{34103,0},{34115,0},{34119,11372},{34107,11368},{34130,0},{34155,11383},{34148,0},{34136,0},{34160,0},{34166,0},{34171,10413},{34175,0},{32862,11396},{34191,10612},{34185,11394},{30720,11392},{34196,0},{34170,10613},{34206,11404},{34209,11400},{33933,4221},{34218,10964},{34230,11409},{12303,11408},{34241,0},{34235,0},{34242,8672},{32920,11412},{34248,11415},{34236,10973},{34269,11424},{34263,11420},{34251,11427},{32923,11418},{34278,11428},{34293,11432},{34302,11435},{34310,0},{34317,11445},{34323,10622},{34331,0},{34328,0},{34332,11438},{34256,0},{34349,0},{34352,0},{34370,0},{34367,0},{34355,0},{34364,0},{34358,0},{33046,11441},{34374,11457},{34323,11015},{31735,11453},{34403,0},{34397,0},{34400,0},{33375,4052},{12384,11125},{12384,11123},{34361,0},{34238,0},{34421,0},{34418,0},{34415,0},{34254,4220},{33369,4052},{30753,11476},{34422,8258},{33086,0},{32574,11026},{34451,0},{12304,11792},{34452,11485},{34463,0},{34466,0},{34470,10648},{34475,0},{34478,0},{34482,9244},{34487,0},{34490,0},{34493,0},{13509,11499},{34503,10097},{34502,0},{34508,0},{34511,0},{34512,10112},{34517,0},{31389,11506},{13224,11499},{34523,0},{14004,11499},{34525,10469},{34522,11060},{34529,0},{34510,10476},{34528,10475},{34530,10139},{16041,11499},{34535,0},{34550,0},{34547,0},{34556,0},{34557,11075},{34574,0},{34581,10708},{34578,11088},{33264,11529},{34593,11095},{34590,11533},{34602,11102},{34620,11539},{34613,0},{34629,11116},{32196,11544},{34623,11542},{34633,10739},{34632,11123},{34652,0},{34653,11126},{34647,11548},{34661,0},{13227,11544},{34673,0},{34679,0},{15039,11544},{34680,11561},{34694,0},{34688,0},{34691,0},{34697,0},{13512,11544},{34700,0},{34706,0},{35435,0},{34709,0},{31078,11571},{34715,0},{34712,0},{34718,0},{34730,0},{34721,0},{34725,10764},{29928,11574},{31542,11579},{34740,9655},{34743,10769},{32316,11583},{33486,11585},{34763,0},{34760,0},{34769,0},{34766,0},{34773,11590},{34782,11593},{33510,11485},{34791,11176},{34454,0},{34797,11180},{34806,11603},{34821,11606},{33582,11604},{13221,11544},{13518,11544},
{13515,11544},{34829,0},{34835,0},{34832,0},{34854,11617},{14019,11544},{34863,11208},{12687,11544},{31666,11619},{34880,0},{34859,0},{34871,0},{34868,0},{34874,0},{34877,0},{14001,11544},{14007,11544},{34892,0},{33660,11634},{34898,0},{34911,11226},{34908,11635},{34901,0},{34895,0},{33708,11642},{34931,0},{33732,11648},{34956,11651},{34959,10837},{33768,11657},{32520,11658},{12304,11666},{12304,11667},{12304,11668},{35007,10854},{35015,0},{35021,0},{35022,11280},{35027,0},{12892,11676},{35033,0},{35040,10866},{34968,11289},{35051,0},{34977,11294},{35054,0},{33885,11685},{35058,4413},{32613,11687},{35067,10872},{33921,11692},{35086,4221},{35099,0},{14028,11499},{31752,11700},{35104,10586},{34516,11057},{35108,0},{16044,11544},{35112,11706},{18834,11544},{35129,0},{18885,11544},{35138,0},{35135,0},{35139,11339},{35150,0},{35144,0},{35157,5087},{13593,11544},{13998,11544},{35169,10906},{35177,0},{35174,0},{34053,11727},{34056,11728},{32736,11729},{35098,10583},{35195,0},{35192,0},{35196,11356},{35204,0},{35201,0},{34083,11735},{35213,0},{32799,11741},{34137,11744},{32832,11747},{35244,10945},{35252,0},{12304,11752},{12304,11753},{35273,0},{34197,11756},{35282,0},{12304,11761},{35300,0},{35309,0},{12304,11774},{13542,11544},{12304,11776},{35339,0},{35340,11781},{34341,11777},{12304,11782},{31857,11783},{35350,4220},{35364,11462},{34389,11789},{34380,11786},{35361,11461},{35381,0},{34632,4052},{31188,11801},{35388,11797},{35396,0},{35402,0},{35399,0},{35409,11804},{30771,11802},{12384,11544},{35407,10257},{35426,0},{35012,0},{28659,11809},{35423,0},{35420,0},{35444,0},{35448,10648},{31950,11817},{35457,11041},{35460,8765},{30861,11825},{35478,10101},{35474,0},{30876,11827},{35484,4193},{30900,11829},{33171,11830},{12475,11831},{33180,11833},{35504,0},{35498,0},{35510,0},{35511,4413},{35516,0},{35507,0},{35519,0},{30963,11840},{35525,0},{33198,11842},{35529,11072},{35541,11088},{35550,11847},{35547,11529},{34635,11855},{35573,0},{35579,0},{35586,11128},{35582,0},{35597,0},{35606,0},{35624,0},{33411,11872},{33420,11876},{36090,11877},{35639,0},{35640,10359},{35646,10761},{35649,11884},{35660,0},{35655,11578},{35661,10534},{35666,0},{35667,10531},{35672,0},{35676,11893},{35685,11894},{35690,0},{35694,11595},{35717,0},{35720,0},{35723,0},{35730,11909},{35744,0},{35738,0},{35747,0},{35757,11918},{33636,11920},{34881,11916},{31665,11917},{35768,0},{35752,10556},{35771,0},{35751,10819},{33681,11930},{13542,11917},{13227,11917},{12687,11917},{15039,11917},{13512,11917},{12304,11935},{12384,11917},{12304,11937},{12304,11936},{35816,0},{35819,0},{35840,0},{13128,11947},{16044,11917},{18834,11917},{18885,11917},{35862,10800},{13239,11917},{35875,10855},{35877,11325},{35882,0},{12508,11961},{35888,0},{36093,8984},{35897,0},{35903,0},{35909,0},{35910,11971},{34020,11974},{14001,11917},{35927,0},{35930,0},{14007,11917},{35933,0},{35937,11980},{13998,11917},{35954,0},{34071,11986},{31749,11959},{13221,11917},{13515,11917},{35952,10594},{14019,11917},{13518,11917},{35891,0},{35996,0},{35993,0},{35876,0},{36008,0},{36017,0},{35751,4052},{36020,0},{36023,0},{36035,0},{12304,12009},{36025,11453},{36038,0},{36040,11014},{34359,12008},{12304,12017},{12304,12016},{12304,12014},{36041,0},{35441,0},{35822,0},{36059,0},{34425,12024},{36066,12023},{36062,0},{36080,0},{12304,12025},{36083,0},{36097,4127},{33079,12126},{36102,11486},{36107,0},{36110,0},{31966,12038},{36116,0},{36115,10211},{12529,12039},{29629,12040},{36123,9899},{36128,0},{36129,10297},{31396,12045},{12580,12044},{36140,0},{36144,9919},{36135,10672},{36147,9917},{36153,10295},{36168,9936},{13240,12055},{36173,0},{36179,0},{36182,0},{36183,11545},{34638,12063},{36192,11861},{36198,11864},{36201,11556},{36204,11871},{35625,12069},{36218,0},{36219,11881},{36222,11881},{36227,0},{36231,11154},{36236,0},{36240,9791},{36243,9791},{36243,10186},{36246,10541},{36247,10541},{36251,0},{36252,11592},{35685,12085},{36258,11489},{36261,11612},{35724,12088},{36293,0},{36294,11629},{36299,0},
{35787,12100},{36305,0},{36311,0},{36317,0},{36314,0},{36320,0},{36323,0},{36326,0},{36329,0},{36332,0},{36335,0},{36380,0},{36347,0},{36346,10863},{36350,0},{36353,0},{36356,0},{36359,0},{36362,0},{36360,11300},{36365,0},{36521,0},{36366,10583},{36369,10026},{36374,0},{12304,12169},{36525,12174},{36381,11705},{36224,0},{35904,12128},{36398,0},{36407,0},{36416,0},{32751,12139},{32683,12141},{36428,0},{36431,0},{36434,0},{36440,0},{36437,0},{32565,12150},{36461,0},{35352,12154},{36473,0},{36485,0},{36494,0},{36488,0},{36482,0},{36491,0},{36476,0},{36495,4413},{36504,11805},{12304,12170},{36530,0},{36531,11815},{36534,11039},{33135,12181},{36543,10272},{13509,12184},{30897,12185},{36551,0},{14004,12184},{13224,12184},{36559,10301},{36558,10301},{36563,0},{36561,10669},{36566,0},{36569,0},{36578,0},{30933,12191},{30930,12193},{33192,12186},{30444,12194},{36590,0},{30975,12195},{36584,0},{36591,10691},{16041,12184},{36594,11530},{35556,12199},{36600,11855},{36611,0},{36606,11866},{36624,11577},{36629,0},{36228,12210},{36641,0},{36642,10367},{36650,0},{36654,11592},{36662,0},{36663,11817},{34923,12229},{36693,11243},{32502,12232},{34965,12233},{34980,12235},{33057,12238},{35070,12244},{36717,11282},{36723,11285},{35046,12242},{36736,10855},{36740,0},{31756,12249},{31209,12250},{36747,10895},{14028,12184},{36771,11343},{35178,12258},{36782,0},{36783,11737},{36785,0},{36786,11374},{36139,12188},{35238,12265},{36803,0},{36804,11459},{36831,10564},{36839,0},{12304,12278},{36758,0},{36761,0},{33084,12207},{36977,0},{36845,0},{36846,12179},{36851,0},{36854,0},{36857,0},{12580,12286},{31399,12287},{36866,0},{36875,0},{13509,12290},{36869,0},{36881,0},{36885,10669},{36570,12294},{36876,10437},{32013,12287},{13224,12290},{12529,12297},{14004,12290},{12475,12298},{36899,0},{36902,0},{13240,12302},{30444,12301},{36909,10328},{36914,0},{36917,0},{16041,12290},{36923,0},{36927,11866},{36935,0},{36939,12212},{28515,12314},{36945,9663},{33480,12316},{36953,0},{36932,0},{36959,0},{12304,12324},{37046,0},{36983,0},{36979,10855},{36980,0},{36998,0},{12508,12333},{37004,0},{37007,0},{36936,12077},{35964,12338},{14028,12290},{37019,0},{35973,12340},{36003,12344},{36936,11154},{12304,12345},{37040,0},{37059,11489},{37062,11040},{37079,0},{37076,0},{31404,12357},{31410,12361},{37088,0},{31413,12363},{37080,10128},{37097,0},{37100,0},{37092,12189},{37106,0},{37103,0},{37078,12047},{37109,0},{37118,0},{35518,12370},{37112,0},{37115,0},{35515,12372},{34539,12373},{37122,12196},{37133,0},{37126,9940},{37130,0},{37137,10157},{37127,0},{37134,11069},{37142,0},{37143,11545},{36186,12381},{37148,0},{37149,12312},{37200,11154},{37157,0},{32326,12387},{37163,0},{35691,12388},{36099,12408},{37175,0},{37185,11300},{37216,10619},{36753,12396},{37193,0},{31761,12399},{37154,0},{37149,12077},{37152,12400},{37203,11736},{36373,12396},{37208,0},{37214,0},{37217,0},{37223,0},{35887,12453},{37229,0},{36141,12411},{35506,12412},{12580,12413},{37244,0},{12475,12416},{30927,12417},{32019,12415},{37262,0},{36888,12419},{37272,10141},{37271,0},{37284,10147},{36162,12427},{36159,12412},{36156,12425},{32026,12430},{37295,0},{37301,0},{30999,12435},{29820,12436},{37314,10161},{37319,0},{37322,0},{37323,11867},{37326,12211},{37329,12384},{28971,12444},{29397,12444},{35673,12446},{35685,12446},{33486,12446},{37345,10632},{37352,0},{37358,0},{36375,12453},{12508,12454},{34731,12455},{37368,12312},{37373,0},{36933,12455},{37379,0},{37376,0},{32814,12460},{31794,12459},{37386,10974},{37218,12456},{37346,0},{37507,11879},{37194,12499},{37395,11818},{37403,0},{37400,0},{37406,0},{12580,12472},{37254,12470},{12529,12471},{37408,10674},{37424,0},{34536,12469},{32040,12475},{37439,0},{37442,0},{37411,12187},{37436,0},{32049,12477},{13509,12481},{37412,0},{32073,12469},{37446,12432},{13224,12481},{37457,0},{13240,12484},{14004,12481},{32133,12486},{37461,11546},{16041,12481},{36603,12488},{37472,0},{37475,0},{37478,0},{37481,0},{37484,0},{37485,11891},{37490,0},{37467,12389},{37394,0},
{37502,0},{37505,0},{37511,0},{37506,12073},{37517,0},{37521,12403},{37518,10930},{12508,12508},{14028,12481},{37529,0},{37532,0},{37535,0},{37536,11142},{37541,0},{36561,12532},{37547,0},{37548,12422},{37263,12517},{36150,12518},{35509,12518},{37559,0},{13509,12522},{37562,0},{37565,0},{37287,12523},{37558,12476},{37574,0},{12475,12525},{12529,12530},{37586,0},{37564,12194},{13224,12522},{37595,0},{37585,11515},{37302,12521},{37599,11512},{14004,12522},{37607,0},{37602,12483},{37616,0},{37612,9751},{37613,0},{13240,12539},{16041,12522},{37625,0},{36237,12543},{35688,12547},{37646,0},{37647,11591},{37545,11182},{37652,0},{37626,12489},{35890,12553},{37544,0},{31539,12554},{37667,0},{37200,12556},{37539,9797},{37539,9988},{37676,0},{37671,12264},{14028,12522},{37682,0},{37678,12342},{36441,12553},{37679,0},{37543,12464},{37570,12429},{35661,12563},{37694,0},{37825,10513},{35451,12567},{37704,12473},{37712,0},{37709,0},{37721,0},{36582,12575},{37716,12476},{37699,10437},{36171,12578},{37733,0},{37730,0},{37734,11842},{37739,0},{37742,0},{37747,11518},{37748,0},{37751,0},{37743,11844},{37698,10669},{37752,10488},{37715,0},{37766,0},{37763,0},{37760,0},{37767,10492},{37778,0},{37773,10498},{29253,12593},{37783,9950},{37787,0},{37784,0},{37788,10510},{37791,12544},{37796,0},{37797,11892},{33484,12600},{34765,12598},{34800,12602},{37811,0},{37653,12605},{37814,0},{37821,12255},{37818,12504},{37383,12611},{37838,0},{37847,0},{37841,0},{37842,11389},{37850,0},{37854,11751},{37851,12342},{37856,0},{37860,12544},{37871,0},{37278,12626},{37872,12574},{37713,12625},{37891,12189},{37889,0},{34542,12627},{37886,0},{37902,11517},{37578,12625},{37581,12633},{31450,12631},{37879,12426},{37892,0},{37917,10151},{37914,11845},{37884,10148},{37925,0},{34560,12642},{37932,10158},{37770,12646},{37311,12645},{34569,12647},{34584,12649},{37952,0},{37955,0},{37956,10164},{29850,12653},{34662,12654},{37967,0},{36657,12656},{36252,12656},{37971,12318},{37980,12661},{37868,0},{37867,10388},{37988,0},{37997,0},{34711,12664},{37998,12667},{37922,0},{38010,11393},{37848,12668},{38007,10611},{38018,0},{38021,0},{34173,12674},{38027,0},{38143,12710},{38144,0},{32496,12710},{37230,12676},{38036,0},{38039,0},{38033,0},{37738,12680},{12580,12682},{38050,10148},{38054,0},{38060,0},{13509,12687},{38067,12295},{37905,12680},{38075,0},{34563,12690},{12580,12694},{38078,0},{13224,12687},{38090,0},{32059,12697},{34566,12695},{12475,12698},{12529,12699},{37776,12700},{38100,12536},{14004,12687},{34614,12702},{38111,0},{13240,12704},{38115,9791},{35667,12705},{36945,12705},{36243,12705},{37158,12705},{36645,12705},{38120,0},{38123,0},{16041,12687},{34768,12708},{38129,0},{37170,12676},{31164,12710},{37656,12712},{37539,12714},{38139,11154},{38130,10589},{14028,12687},{38147,0},{38156,0},{12508,12717},{38157,11755},{38168,0},{38169,11469},{38174,0},{38311,10514},{38183,0},{38043,12728},{37587,12730},{38187,12632},{38200,12301},{38198,0},{38195,0},{38201,0},{36174,12734},{38210,0},{37578,12728},{38213,0},{38216,0},{12475,12740},{38225,0},{38231,0},{12529,12746},{13509,12745},{37608,12744},{38055,12728},{38243,0},{13224,12745},{38249,0},{38246,0},{38250,12744},{38255,0},{14004,12745},{13240,12752},{38263,9957},{38265,12215},{38273,0},{38270,0},{38276,0},{38279,0},{38282,0},{37341,12761},{34782,12761},{36249,12762},{38291,0},{38264,0},{16041,12745},{35712,12765},{38298,12354},{38303,0},{38180,0},{30193,12726},{38178,10064},{38172,12725},{38172,12565},{14028,12745},{38306,0},{37825,12770},{38307,10190},{38307,10189},{38307,9797},{38307,10540},{30090,12771},{38307,10776},{38307,10777},{38307,11163},{38307,10779},{38307,10440},{38307,10069},{38307,10639},{37755,12735},{38307,10445},{38307,10642},{38318,0},{38307,11032},{38319,12561},{38327,0},{38322,12721},{38206,12585},{38305,12604},{12508,12776},{38307,10265},{38307,10443},{38307,10264},{38307,11050},{38307,10449},{38307,10654},{38307,10272},{38307,11045},{38307,10448},{38307,10081},{38307,12181},{38307,10657},{38307,11046},
{31096,12778},{38341,12710},{36111,12781},{38346,12685},{38354,0},{38351,0},{38356,12636},{38065,12786},{38361,12735},{37920,12787},{35538,12790},{38375,0},{38364,12301},{38357,0},{38369,0},{38079,12792},{38064,12786},{38384,0},{38388,11079},{38399,0},{38393,0},{38396,0},{38402,0},{38408,0},{35559,12806},{38409,12701},{38417,0},{38425,9954},{38423,0},{38426,0},{38432,0},{38433,9513},{38436,10368},{34746,12813},{38442,12546},{35664,12815},{38451,12388},{38450,0},{33499,12818},{38457,11171},{38429,0},{29871,12820},{38465,0},{38468,0},{38471,0},{38472,10831},{38480,0},{38483,0},{37539,12828},{38437,10368},{38492,0},{37989,12831},{38337,12565},{38497,10898},{38501,0},{38487,10543},{37827,12828},{38487,11584},{37830,12828},{38487,12217},{38507,0},{38504,0},{38510,0},{38487,12445},{38487,12658},{38516,0},{38487,12659},{38487,12764},{38519,0},{38522,0},{38525,0},{38531,0},{38528,0},{38534,0},{38537,0},{38540,0},{38543,0},{38549,0},{38544,10953},{38552,0},{38559,12851},{38564,0},{38562,12148},{38567,0},{38573,0},{38570,0},{38576,0},{38560,12851},{38579,0},{38585,0},{38582,0},{38588,0},{38591,0},{38594,0},{38600,0},{38597,0},{38603,0},{38342,0},{38606,0},{38756,0},{38612,0},{38615,0},{38618,0},{38619,12681},{37911,12874},{38631,12585},{38636,0},{38627,0},{33228,12883},{37929,12880},{38646,12636},{38645,0},{12580,12879},{38623,12637},{38657,0},{37402,12884},{34575,12887},{38641,12643},{35544,12890},{38665,12648},{38352,12891},{38664,12648},{38676,10720},{38682,12895},{12529,12893},{38691,10740},{38690,0},{29862,12898},{37155,12899},{38705,0},{38700,12545},{38708,0},{38709,10194},{38714,0},{31143,12903},{38717,0},{36258,12906},{35694,12906},{34788,12908},{36663,12906},{38732,0},{33510,12906},{38733,10791},{38736,11616},{38739,11209},{38740,11209},{38737,11616},{38744,0},{38751,11050},{35823,12919},{37858,12952},{38751,10272},{38763,10540},{38751,10189},{38766,9992},{38763,10189},{38763,10190},{38774,0},{38786,0},{38777,0},{38783,0},{38780,0},{38763,10776},{38751,10190},{38798,0},{38763,10777},{38751,10540},{38801,0},{38763,11163},{38751,10776},{38807,0},{38763,10779},{38751,10777},{38751,11163},{38810,0},{38763,10069},{38487,12907},{38763,10639},{38751,10779},{38763,10440},{38751,10069},{38763,10642},{38751,10440},{38763,10265},{38751,10639},{38763,11032},{38763,10445},{38751,11032},{38751,10642},{38762,0},{38829,12716},{38760,12668},{38841,11754},{38844,12720},{38751,10445},{38763,10443},{38751,10265},{38763,10264},{38763,10448},{38751,10443},{38855,0},{35994,12950},{37857,12952},{38849,0},{38751,10448},{38763,10654},{38751,10449},{38763,11045},{38751,10081},{38751,12181},{38763,12181},{38763,11046},{38751,10654},{38763,10449},{38751,10264},{38763,11050},{38751,11046},{38751,10657},{38763,10272},{38763,10081},{38751,11045},{38763,10657},{38608,12966},{38947,12795},{34479,12970},{38921,0},{38918,0},{38628,12971},{38073,12976},{38379,12975},{38924,0},{38919,12976},{38226,12980},{38939,0},{38945,0},{38936,0},{38933,0},{38953,12886},{38946,12795},{38952,12886},{12475,12985},{38959,12801},{38958,12801},{32092,12977},{38966,0},{12580,12987},{38969,0},{38972,0},{34596,12991},{38412,12988},{38978,0},{38981,0},{34641,12994},{38990,0},{38993,0},{38999,0},{38994,10531},{39000,10186},{39005,0},{39006,9791},{39011,0},{39012,10549},{39017,0},{39020,0},{39013,10549},{13240,13007},{39026,0},{39032,0},{34794,13011},{39038,0},{39041,0},{14028,13015},{13224,13015},{39048,12825},{39273,12870},{32518,12968},{39053,0},{12508,13018},{39275,0},{39062,0},{39065,0},{39068,0},{39074,0},{38755,13023},{39077,0},{39078,13029},{39090,13028},{39095,0},{39098,0},{39107,0},{39104,0},{16041,13015},{39116,0},{39113,0},{39125,0},{39122,0},{39134,0},{39128,0},{39137,0},{13509,13015},{39146,0},{39149,0},{39143,0},{39140,0},{38904,10839},{14004,13015},{39152,0},{39155,0},{39161,0},{39167,0},{39158,0},{39173,0},{39164,0},{39170,0},{39174,12671},{38194,13059},{12508,13061},{39182,0},{39188,0},{39200,0},{39197,0},{39191,0},{39194,0},{39203,0},{39206,0},{39215,0},{39230,0},
{39221,0},{39227,0},{39224,0},{39233,0},{39245,0},{39242,0},{39236,0},{39239,0},{38487,13014},{39248,0},{39251,0},{39263,0},{39269,0},{39260,0},{39266,0},{39257,0},{39254,0},{39272,0},{38608,12968},{39281,0},{39288,13095},{39282,12739},{39293,0},{39294,13099},{39302,0},{33240,13105},{39312,12625},{37300,13101},{39326,0},{35547,13105},{39329,0},{34578,13105},{13224,13112},{13509,13112},{39344,0},{38245,13113},{39348,12700},{39345,12681},{36183,13105},{39323,0},{12475,13117},{39356,0},{38259,13119},{36600,13105},{36924,13105},{14004,13112},{12529,13121},{39369,9657},{39377,0},{39372,9663},{28966,13126},{39381,9172},{28021,13128},{28071,13129},{38688,13122},{38259,13122},{36843,13131},{39392,0},{36531,13132},{39403,10382},{37545,13135},{39404,0},{39408,11900},{16041,13112},{13240,13137},{37803,13135},{34860,13138},{39417,11040},{39422,0},{39425,0},{39428,0},{39642,12969},{39429,10657},{39429,11046},{39433,12827},{39429,10081},{39432,12916},{39520,10413},{39429,11050},{39440,0},{38556,13186},{39639,12967},{39429,9992},{39447,12923},{39429,10190},{39429,9988},{39453,12929},{39429,10189},{39429,9797},{39459,12930},{39456,12918},{39429,10540},{38755,13152},{39468,12931},{39429,10776},{39108,13158},{39477,12934},{39429,10069},{39482,0},{39429,10777},{39429,11163},{39429,10779},{39117,13161},{39486,12937},{39429,10440},{39492,12938},{39129,13163},{39495,12939},{39501,13166},{38487,13133},{39429,10642},{39429,10639},{39506,0},{39429,11032},{39516,12941},{39507,12940},{31239,13173},{39524,0},{39525,12942},{39429,10445},{14028,13112},{39543,12945},{39534,12946},{39537,12944},{39429,10265},{39554,0},{37846,13183},{39557,0},{39429,11045},{39429,10443},{39561,12777},{39429,10264},{39573,12954},{39564,12953},{39576,12955},{39429,10448},{39335,0},{39429,10272},{39594,12959},{39585,12958},{39609,12961},{39603,12960},{39614,0},{39429,12181},{39615,12962},{39636,12964},{39630,12965},{39621,12963},{39429,10654},{39429,10449},{39644,0},{39441,13346},{39645,11043},{38626,13217},{39650,0},{39654,13102},{39659,0},{37732,13222},{39671,0},{39665,0},{38667,13223},{39683,0},{39677,0},{39689,0},{39686,0},{38629,13233},{37954,13232},{39710,0},{39704,0},{39719,0},{39716,0},{39722,0},{39725,0},{39728,0},{38907,13346},{31960,13263},{28042,13243},{26764,13245},{39733,9984},{39746,0},{22510,13247},{39749,0},{39747,4739},{39752,0},{39753,13119},{33109,13252},{39759,11173},{33508,13254},{39767,0},{39770,0},{31146,13257},{33091,13258},{39781,10797},{39779,0},{39782,0},{39785,0},{39788,0},{39792,11640},{39795,11237},{39646,11043},{39801,10081},{39801,10657},{39809,0},{39806,0},{39801,11050},{39812,0},{39815,0},{39818,0},{39824,0},{39733,12968},{39319,13219},{39801,10654},{39831,13148},{40034,0},{39801,9988},{39836,0},{39801,10540},{39837,13150},{39801,10190},{39801,10189},{39801,9797},{39842,0},{39855,13155},{39846,13154},{39851,0},{39845,0},{39854,0},{39801,10776},{39863,0},{39867,13157},{39801,10777},{39872,0},{39801,10440},{39876,13291},{39801,11163},{39881,0},{39887,0},{39882,11350},{39801,10779},{39801,10069},{39893,0},{39890,0},{39897,13298},{39801,10639},{39902,0},{39903,13302},{39909,13304},{39801,11032},{39801,10642},{39920,0},{39917,0},{39923,0},{39801,10445},{39924,11362},{39929,0},{39938,0},{39939,11377},{39801,10265},{39947,0},{39950,0},{39801,10443},{36447,13322},{39962,0},{39556,13321},{39801,12181},{39801,10264},{39830,0},{39969,13184},{39968,0},{39977,0},{39801,10448},{39974,0},{39980,0},{39829,13019},{39983,0},{39801,10449},{39995,0},{39801,11046},{40001,0},{39801,10272},{40014,13206},{40019,0},{39801,11045},{40037,0},{38949,13350},{40046,0},{40048,13103},{39318,13352},{40053,13220},{40047,13103},{40065,11082},{40061,0},{38392,13354},{40070,0},{39678,13353},{36918,13358},{34572,13357},{40080,11101},{35553,13359},{40085,0},{40084,13236},{40088,0},{36921,13364},{39360,13362},{40099,12995},{37620,13365},{37626,13367},{40104,11131},{40098,12995},{40130,0},{40118,0},{40124,0},{39739,13375},{40123,12968},{40117,13375},{40132,4578},{40136,0},{40142,0},
{38727,13379},{31915,13382},{38730,13384},{40160,0},{40156,10551},{40155,10551},{40166,0},{40167,11186},{32391,13390},{34470,13391},{33114,13391},{40176,12093},{40177,12093},{40179,11644},{35793,13394},{40041,12870},{40193,0},{40190,0},{40202,0},{40216,9984},{40220,0},{40223,0},{40219,13275},{40436,0},{40110,9997},{40232,0},{40110,12217},{40239,13027},{40110,11584},{40110,10543},{40110,10375},{40238,0},{40244,0},{40247,0},{40250,0},{40110,12445},{37867,13418},{37867,13419},{40271,0},{40275,13033},{40110,12658},{40280,0},{40110,13133},{40110,12659},{40286,0},{40292,0},{37867,13429},{40110,12764},{35943,13433},{40110,12907},{40307,0},{40304,0},{37867,13438},{40319,0},{37867,13441},{40110,13383},{37867,13442},{40110,13387},{40331,0},{40334,0},{40110,13381},{40338,13171},{40346,0},{35970,13449},{38487,13387},{35979,13452},{38487,13383},{40361,0},{38487,13381},{35251,13375},{35988,13375},{40365,11405},{40370,0},{40373,0},{38847,13459},{40385,0},{40391,0},{39057,13462},{40382,0},{35991,13464},{40400,0},{40409,0},{40110,13014},{40415,0},{32979,13376},{38487,13371},{38487,13395},{40421,0},{40020,13476},{40427,0},{40110,13371},{40110,13395},{35463,13481},{39321,13482},{40442,0},{40446,13092},{40451,0},{40457,0},{40454,0},{39328,13487},{32116,13486},{40465,13484},{40472,0},{32119,13492},{33268,13491},{12580,13494},{34605,13493},{38980,13497},{40441,13092},{40485,13363},{33337,13498},{40499,0},{40502,0},{34612,13501},{40508,0},{34665,13503},{40514,0},{40107,13500},{40120,13505},{40120,13506},{39739,13507},{40532,0},{40526,0},{40529,0},{40524,13509},{40534,13505},{40534,13378},{40542,13513},{40152,13513},{40550,0},{40559,0},{34803,13521},{40568,0},{40571,0},{40574,0},{40577,0},{14028,13526},{13224,13526},{12508,13527},{12475,13528},{40587,11046},{40587,10272},{40590,13398},{40587,10657},{40593,13399},{40596,13402},{40587,11050},{40587,10081},{40599,9992},{40602,13275},{40817,0},{16041,13526},{40616,0},{40587,10189},{40587,9988},{40587,9797},{40622,0},{40587,9992},{40628,0},{40631,0},{40635,13417},{40634,0},{37867,13541},{40587,10190},{40638,13420},{40644,13421},{40641,13422},{40649,0},{38511,13551},{40656,13424},{40653,13288},{40652,0},{40587,10540},{14004,13526},{37867,13553},{40664,0},{40665,13427},{40587,10779},{40587,10776},{40670,0},{40673,0},{40587,10777},{40677,13432},{40674,13431},{40587,11163},{13240,13562},{40685,0},{40691,0},{40682,0},{40695,13437},{40692,13436},{40110,13515},{40587,10069},{40701,13440},{38487,13515},{40700,0},{40587,10639},{40587,10440},{40709,0},{40712,0},{40706,0},{40715,0},{40587,10642},{40716,13445},{13509,13526},{40719,13447},{40724,0},{39933,13575},{12580,13577},{40728,13450},{40736,0},{40110,13518},{40587,11032},{12529,13579},{38487,13518},{40742,0},{40748,0},{40743,13454},{40751,0},{40754,0},{40587,10445},{40755,11759},{40758,13458},{40587,10265},{40587,10654},{40587,10443},{40766,0},{39210,13587},{40761,13069},{40775,0},{40781,0},{40767,13465},{40776,13467},{40782,13470},{40610,0},{40785,12151},{31714,13505},{40587,10264},{40790,0},{40787,0},{40796,0},{40791,13472},{40587,12181},{40802,0},{40799,0},{40803,13474},{36465,13536},{40587,11045},{40809,13477},{31344,13529},{37867,13602},{40587,10449},{40611,13409},{40814,0},{41294,0},{40820,0},{40827,13608},{40823,0},{40464,13612},{39672,13610},{39333,13613},{13224,13614},{40839,13110},{40847,0},{39343,13615},{40824,13092},{13224,13617},{13224,13618},{12475,13620},{13509,13614},{40859,0},{40871,0},{40868,0},{13224,13624},{39354,13621},{39693,13621},{13509,13617},{13224,13627},{39727,13626},{36606,13628},{40884,12064},{12529,13629},{13509,13618},{40890,13122},{40895,0},{36930,13628},{40885,12064},{40901,0},{40898,0},{40902,13508},{40904,0},{40530,13633},{40908,13509},{40896,13635},{40914,11584},{40914,12217},{40905,9992},{40914,12445},{40919,0},{40917,13512},{40134,13639},{40922,0},{40925,0},{14004,13614},{14004,13617},{40926,13514},{40551,13643},{40932,11182},{14004,13618},{16041,13614},{13509,13624},{13240,13645},{13509,13627},{40944,11034},{34464,13647},
{14004,13624},{16041,13617},{14004,13627},{40914,13518},{40914,13381},{40914,13383},{16041,13618},{36672,13649},{40914,13014},{40952,0},{40914,13371},{40914,13395},{40958,0},{40955,0},{40961,0},{40967,0},{40964,0},{40973,0},{40982,0},{40985,0},{40914,9997},{40914,10375},{39745,13662},{40914,10543},{40914,12658},{40914,12659},{40914,12764},{40914,12907},{40914,13515},{40914,13133},{40914,13387},{40997,0},{16041,13624},{16041,13627},{40617,13666},{41003,0},{41009,0},{41006,0},{41015,0},{41033,0},{41048,0},{41054,0},{41060,0},{41063,0},{41066,0},{41075,0},{41078,0},{41087,0},{41096,0},{41099,0},{41120,0},{41117,0},{41126,0},{41132,0},{41135,0},{41150,0},{41156,0},{37867,13721},{41168,0},{41172,13176},{41177,0},{41180,0},{41186,0},{41183,0},{41187,13177},{41190,13180},{35997,13733},{41204,0},{12508,13735},{41213,0},{41216,0},{41220,13590},{41219,0},{41225,0},{41226,13468},{39582,13743},{14028,13614},{41255,0},{36009,13750},{41249,0},{36006,13753},{14028,13617},{14028,13627},{36010,13750},{14028,13618},{41270,0},{36465,13748},{40991,0},{41274,13196},{41271,13197},{14028,13624},{41285,0},{41297,0},{41291,0},{41307,12180},{41313,13611},{41312,0},{41318,0},{41321,0},{41327,0},{41324,0},{39690,13777},{41339,0},{41342,0},{41345,0},{41351,0},{41348,0},{41366,0},{41363,0},{41372,0},{41375,0},{41381,0},{41384,0},{41390,0},{41387,0},{38428,13797},{41399,0},{13224,13800},{41406,13801},{41412,13637},{41409,13637},{41406,13635},{41418,10190},{41418,10540},{41415,9988},{41421,9797},{41421,9988},{41426,0},{41429,0},{40129,13810},{41415,9797},{41418,10776},{41421,10189},{41435,0},{41444,0},{41441,0},{41421,10190},{41415,10189},{41436,13512},{41445,13812},{41439,9997},{41442,9988},{41421,10540},{41439,10375},{41415,10190},{41442,9797},{41415,11163},{41421,10779},{41415,10779},{41421,10069},{41439,12658},{41442,10777},{41442,10776},{41439,12445},{41421,10776},{41415,10540},{41421,11163},{41415,10777},{41439,11584},{41415,10069},{41439,10543},{41421,10440},{41439,12217},{41421,10777},{41415,10776},{41442,10540},{41442,10190},{41442,10189},{41421,10445},{41415,11032},{41442,11163},{41439,12659},{41439,13515},{41442,10639},{41448,13009},{41453,0},{41442,10440},{41415,10642},{41421,11032},{41439,13133},{41456,0},{41415,10440},{41421,10639},{41439,12764},{41415,10445},{41421,10265},{41442,10779},{41459,0},{41439,13387},{41442,10642},{41442,10069},{41439,12907},{41421,10642},{41415,10639},{31339,13821},{41468,0},{41421,10443},{41415,10265},{41471,0},{41474,0},{41442,11032},{41439,13383},{41476,10553},{41477,0},{13509,13800},{41480,0},{31939,13827},{31342,13828},{41489,0},{41421,10448},{41415,10264},{41421,10264},{41415,10443},{41492,0},{41442,10265},{41442,10445},{41439,13518},{41439,13381},{14028,13800},{41418,10443},{41418,10265},{41418,10445},{41418,11032},{41501,0},{41415,10448},{41421,10449},{41498,0},{41495,0},{41504,0},{41415,10449},{41421,10654},{41442,10443},{41442,10264},{14004,13800},{41510,0},{41418,10448},{41418,10449},{41507,0},{41513,0},{41418,10264},{41442,10448},{41418,10272},{41514,11233},{41418,10654},{41519,0},{41418,11045},{41442,10449},{41439,13014},{41415,10654},{41421,11045},{41522,0},{41308,12180},{41526,11649},{41418,12181},{41439,13371},{41442,10654},{41415,11045},{41421,12181},{41442,11045},{41439,13395},{41421,11046},{41415,10272},{41418,11046},{41421,10272},{41415,12181},{41418,10081},{41442,12181},{41418,11050},{41418,10657},{41421,10657},{41415,11046},{41418,9988},{41549,0},{41418,9797},{41552,0},{41418,10189},{41558,0},{41553,13248},{41418,10777},{41561,0},{41298,13921},{41415,9992},{41418,11163},{41564,0},{41418,10779},{41418,10069},{41570,0},{41567,0},{41418,10639},{41573,0},{41418,10440},{41418,10642},{41576,0},{41579,0},{41580,11678},{41585,0},{41588,0},{16041,13800},{41589,13411},{41010,13864},{41025,13867},{41016,13865},{41554,13375},{41019,13866},{41043,13868},{41616,11721},{41067,13871},{41082,13875},{41079,13874},{41100,13876},{41103,13877},{41640,13879},{41643,13170},{41136,13882},{41145,13883},{41160,13884},
{41655,11739},{41660,0},{41442,11046},{39942,13888},{41667,13890},{41442,10272},{41673,13182},{39954,13894},{39951,13893},{41421,10081},{41415,10657},{41415,10081},{41421,11050},{41687,0},{41693,0},{41320,13110},{41415,11050},{41442,10657},{41232,13902},{41711,0},{41442,10081},{41717,0},{41714,0},{41442,11050},{41723,0},{41256,13906},{41713,12956},{41729,0},{41732,0},{41735,0},{41741,0},{40005,13918},{40002,13917},{41759,0},{41766,13479},{41771,0},{41772,13925},{41328,13927},{40467,13926},{41784,11104},{40848,13929},{41792,0},{41793,13235},{35562,13932},{41799,11115},{35568,13934},{40867,13935},{41358,13935},{40875,13936},{41811,11552},{36195,13938},{41817,11558},{41823,12066},{36609,13940},{41833,13943},{41826,11136},{37467,13945},{41840,0},{41841,13510},{41847,10189},{41847,9797},{41850,10375},{41844,10189},{41844,10190},{41861,0},{41855,0},{41867,0},{41864,0},{41858,0},{41876,0},{41844,10540},{41850,10543},{41847,10190},{41885,0},{41882,0},{41879,0},{41889,13964},{41850,11584},{41897,0},{41900,0},{41901,13640},{41904,9992},{41909,0},{41912,0},{41850,12217},{41904,9988},{41850,12764},{41918,0},{41921,0},{41924,0},{41850,12907},{41915,0},{41904,10776},{41904,10540},{41850,12445},{41948,0},{41933,0},{41936,0},{41927,0},{41945,0},{41930,0},{41850,12659},{41942,0},{41939,0},{41957,0},{41904,10189},{41904,10190},{41850,13133},{41960,0},{41850,12658},{41904,9797},{41954,0},{41951,0},{41984,0},{41990,0},{41978,0},{41981,0},{41975,0},{41963,0},{41987,0},{41969,0},{41904,10777},{41850,13381},{41972,0},{41966,0},{41904,10440},{42002,0},{41904,10069},{41993,0},{41999,0},{41850,13383},{41996,0},{35697,14004},{42008,0},{42005,0},{42020,0},{42023,0},{42017,0},{39766,14003},{42026,0},{41850,13515},{41850,13518},{41832,13943},{42032,0},{42035,0},{42027,11181},{41904,11163},{41460,14016},{42038,0},{42047,0},{42041,0},{42044,0},{41904,10639},{41904,10779},{42053,0},{42056,0},{41850,13387},{42059,0},{42062,0},{42068,0},{42065,0},{41850,14023},{42072,11189},{42081,11197},{42080,0},{42077,0},{42084,11605},{41904,10642},{31659,14032},{42089,0},{42095,0},{42092,0},{42102,11613},{42101,0},{41850,14035},{41850,14036},{42111,11615},{42122,0},{42125,0},{42116,0},{42119,0},{41904,11032},{41904,10445},{42131,0},{42137,0},{42140,0},{42126,11210},{42134,0},{40914,14023},{41847,10445},{42143,0},{41844,10265},{41847,10639},{41844,11032},{41844,10445},{41847,11032},{41847,10642},{42146,0},{41844,10642},{41850,13014},{42152,0},{42149,0},{42155,0},{42164,0},{42161,0},{41904,10265},{41439,14035},{41904,10443},{41850,13371},{42168,11628},{41439,14023},{42185,0},{41844,10264},{40914,14036},{41847,10264},{41844,10448},{41847,10443},{42179,0},{42176,0},{42182,0},{41847,10265},{40914,14035},{42194,0},{42197,0},{41844,10443},{42189,12226},{42188,0},{42198,11225},{41439,14036},{41904,10264},{42206,0},{42209,0},{41847,10448},{41844,12181},{41844,10449},{41847,11045},{42213,12320},{42218,0},{42212,0},{42190,12226},{41847,10449},{41844,10654},{41904,10448},{42224,0},{41850,13395},{42230,0},{42236,0},{42227,0},{42233,0},{41844,11045},{40914,14080},{41847,10654},{36963,14081},{42248,0},{41904,10449},{42251,0},{42254,0},{41850,14080},{41904,10654},{42260,0},{42257,0},{42266,0},{42263,0},{41844,10272},{41847,12181},{42269,0},{42272,0},{42281,0},{42278,0},{42275,0},{41847,11046},{41844,10657},{41904,11045},{41439,14080},{41847,10657},{41844,10081},{42290,0},{42284,0},{42287,0},{41847,10272},{41844,11046},{42293,0},{41844,11050},{42299,0},{42296,0},{41847,10081},{42302,0},{41844,9988},{41847,9992},{41844,9992},{42308,0},{41847,9988},{41844,9797},{42314,0},{41875,13505},{41847,10540},{41844,10776},{42323,0},{41850,9997},{42332,0},{41844,10777},{41847,10776},{42335,0},{41847,10777},{41844,11163},{41847,11163},{41844,10779},{42344,0},{42341,0},{41847,10069},{41844,10440},{42353,0},{41847,10779},{41844,10069},{41844,10639},{41847,10440},{42359,0},{42362,0},{36984,14123},{42375,11707},{42372,11708},{42380,0},{38755,14127},{41022,14128},{41034,14130},{41040,14132},{41037,14129},
{42395,0},{41049,14133},{41070,14135},{37008,14134},{41091,14137},{41088,14136},{41112,14139},{41109,14138},{41121,14140},{41151,14142},{39930,14141},{41157,14143},{41169,14144},{37023,14145},{41904,10272},{42443,0},{37867,14148},{41904,12181},{42452,0},{41193,14149},{39957,14151},{40110,14023},{38487,14023},{37867,14152},{42467,0},{42464,0},{41847,11050},{37867,14153},{38487,14035},{38487,14036},{40110,14080},{40110,14035},{42473,0},{42470,0},{42475,10571},{40110,14036},{42481,14159},{31713,14158},{41904,11046},{42488,0},{42485,0},{42482,0},{41904,10657},{42489,14164},{41781,13110},{41904,10081},{42497,0},{42506,0},{42498,11419},{41904,11050},{38868,14167},{41265,14170},{41262,14169},{42515,0},{38487,14080},{42519,11446},{42522,11785},{42525,11790},{37867,14177},{37867,14176},{42534,11795},{40992,14109},{40605,14179},{38905,14533},{43602,13767},{37065,14180},{42545,0},{42548,0},{39694,14183},{42551,0},{34608,14184},{40447,14187},{35574,14189},{12475,14188},{12580,14190},{42575,0},{35589,14194},{12580,14195},{36612,14196},{34651,14197},{34672,14198},{35607,14200},{42605,0},{42606,11567},{42609,9992},{42623,0},{42617,0},{42626,0},{42614,0},{42620,0},{42609,9988},{42636,14209},{42642,13505},{42653,0},{42647,0},{42650,0},{42654,14220},{42609,9797},{42668,0},{42665,0},{42675,9992},{42669,14224},{42609,10189},{42689,0},{42692,0},{42684,14227},{42609,11163},{42675,10540},{42609,10777},{42680,0},{42675,10190},{42609,10190},{42708,14233},{42695,0},{42716,0},{42609,10776},{42707,0},{42713,0},{42675,9988},{42609,10779},{42675,9797},{42740,0},{42675,10189},{42609,10540},{42719,0},{42726,14241},{42735,14243},{42747,14253},{42771,14256},{42764,0},{42755,0},{42767,0},{42752,0},{42609,10642},{42758,0},{42675,10776},{42804,14269},{42780,14261},{42675,10779},{42800,0},{42675,10069},{42803,0},{42609,10639},{42812,0},{42827,0},{42818,0},{42819,14276},{12529,14277},{42843,14280},{42609,10069},{42851,0},{42675,10777},{42609,11032},{42857,0},{42675,10440},{42867,14288},{42875,0},{42860,0},{35703,14290},{42878,0},{42888,14295},{42609,10440},{42675,11163},{42893,0},{42905,0},{42896,0},{42609,10445},{42915,14304},{42675,10639},{35706,14307},{42920,0},{42863,0},{35709,14311},{42930,14309},{34824,14308},{42938,0},{42941,0},{42609,10265},{42954,11614},{42609,10443},{36666,14317},{42959,0},{42675,11032},{42675,10642},{42962,0},{35733,14321},{42972,14325},{42983,0},{42980,0},{42966,14323},{35739,14331},{43010,0},{43005,12091},{43001,0},{43004,0},{43025,0},{42609,10264},{43022,0},{43019,0},{43031,0},{43013,0},{43016,0},{43034,0},{42675,10265},{42609,10448},{42675,10445},{43058,0},{43055,0},{36675,14354},{43061,0},{43067,0},{43052,0},{43044,14349},{43079,0},{43082,0},{43085,0},{43073,0},{43076,0},{43086,14363},{42675,10443},{35784,14372},{43113,11639},{43109,0},{43097,0},{43100,0},{43112,0},{43124,0},{43121,0},{43133,0},{43139,0},{43142,0},{43136,0},{14028,14384},{12508,14381},{42675,10264},{43160,0},{42609,10449},{43157,0},{43163,0},{43169,0},{43173,14393},{12475,14397},{43184,0},{43190,0},{43187,0},{13224,14384},{42675,10448},{43199,0},{42675,10449},{42609,10654},{43211,0},{43208,0},{43212,14405},{42609,12181},{42609,11045},{43230,14411},{43229,0},{43226,0},{42675,10654},{43239,14412},{43250,0},{43259,0},{43247,0},{43253,0},{43262,0},{43256,0},{43277,0},{42609,10272},{43274,0},{43283,0},{43287,14428},{43292,0},{43293,14101},{43301,0},{43298,0},{43304,0},{43310,0},{43313,0},{43319,0},{43322,0},{43325,0},{43331,0},{43337,0},{43340,0},{43352,0},{43346,0},{43355,0},{43349,0},{43367,0},{43364,0},{43376,0},{43373,0},{43382,0},{43379,0},{16041,14384},{13240,14463},{36762,14464},{35898,14465},{43398,11710},{43403,0},{39859,14467},{38755,14468},{38755,14469},{38755,14470},{38755,14471},{38755,14473},{14004,14384},{12529,14475},{38755,14474},{38755,14477},{38755,14476},{38755,14478},{38755,14479},{38755,14480},{38755,14481},{37867,14482},{38755,14483},{38755,14484},{13509,14384},{12580,14485},{42675,12181},{43460,0},{42675,11045},{43469,0},{43466,0},{38755,14491},
{42609,11046},{37867,14492},{43481,0},{42609,10657},{43502,0},{43484,0},{43496,0},{43491,14496},{43511,0},{43505,0},{43566,13459},{43508,0},{43487,0},{43512,14505},{43499,0},{43523,0},{42675,10272},{42609,10081},{43529,0},{43526,0},{42675,11046},{43532,0},{43539,14159},{43544,0},{42609,11050},{42675,10657},{43553,0},{43550,0},{43547,0},{42675,10081},{43565,0},{43560,11771},{43568,0},{42675,11050},{38755,14523},{43574,0},{43575,12152},{43577,0},{43580,0},{43581,12010},{43584,12269},{43587,12015},{43592,0},{42578,0},{43595,0},{43596,12021},{38905,14536},{43613,0},{43614,13778},{39693,14541},{43622,0},{42555,14539},{12475,14542},{12475,14544},{43615,13778},{43631,0},{43637,0},{41367,14541},{43640,0},{12475,14548},{12475,14550},{43649,0},{14028,14551},{14028,14552},{12580,14553},{43663,11139},{36618,14555},{43670,0},{42630,14557},{42639,14559},{43674,13956},{41871,14560},{43688,0},{41886,14565},{42657,14566},{43709,0},{43713,9992},{43724,0},{43718,0},{43731,14581},{43748,0},{43742,0},{43739,0},{43736,0},{42702,14576},{43763,0},{43751,0},{42732,14586},{42741,14589},{43772,0},{43784,0},{43778,0},{43787,0},{43775,0},{43817,0},{42777,14603},{42792,14604},{42774,14602},{43823,0},{43838,0},{43844,0},{42822,14611},{43832,0},{42846,14617},{42834,14615},{43859,0},{43858,14622},{43865,0},{43871,0},{43874,0},{43880,0},{12529,14630},{42882,14628},{43894,13520},{43893,13520},{43901,0},{43904,0},{42900,14635},{42906,14637},{43916,0},{13224,14551},{12529,14641},{43922,0},{12580,14644},{13240,14646},{42942,14647},{42093,14648},{40938,14648},{43949,0},{43955,0},{36669,14650},{12580,14652},{43662,11139},{43964,0},{12529,14657},{13509,14551},{13224,14552},{43967,0},{42984,14659},{42996,14660},{13240,14662},{43995,14666},{43026,14663},{43992,12096},{44006,0},{42165,14669},{43035,14673},{42156,14667},{43041,14671},{43038,14670},{42171,14672},{13509,14552},{44027,0},{44030,0},{44033,0},{43092,14683},{12529,14680},{43068,14678},{44067,14687},{43104,14686},{43101,14688},{42201,14685},{43125,14694},{44075,0},{36681,14693},{44088,14695},{36684,14697},{13240,14692},{43128,14698},{42219,14700},{43146,14701},{43149,14703},{44114,0},{44117,0},{42237,14709},{43164,14707},{44120,0},{44126,0},{43176,14710},{43194,14714},{44148,14715},{44141,0},{44156,0},{44153,0},{43203,14719},{44162,0},{44165,0},{43221,14722},{44177,0},{44180,0},{43242,14729},{44192,0},{43269,14735},{43266,14732},{43263,14736},{43278,14738},{44219,0},{43305,14746},{44235,14103},{44232,14747},{42315,14748},{43314,14749},{43326,14752},{42324,14751},{43332,14753},{43341,14754},{42336,14755},{42348,14757},{42345,14756},{43359,14759},{43356,14758},{42354,14761},{43368,14760},{42363,14763},{43383,14762},{42366,14764},{43386,14765},{44300,0},{44303,0},{13240,14769},{13240,14768},{36768,14770},{16041,14551},{16041,14552},{39858,14771},{44318,0},{44321,0},{44316,13685},{44324,0},{44327,0},{44330,0},{44333,0},{14004,14551},{44336,0},{44339,0},{44342,0},{14004,14552},{44345,0},{44348,0},{44351,0},{44354,0},{44357,0},{44360,0},{44363,0},{44366,0},{44369,0},{44372,0},{44378,0},{43461,14793},{44375,0},{44384,0},{43470,14795},{44396,0},{44393,0},{44400,13896},{44405,0},{44409,13190},{44399,0},{44406,13189},{44426,0},{44418,13898},{44427,13899},{44421,13193},{44444,0},{44439,13901},{43533,14819},{41244,14817},{40989,14817},{44447,0},{44456,0},{44468,0},{44471,0},{44462,0},{43554,14821},{43557,14824},{44478,13908},{44475,13332},{44483,0},{44490,13072},{12508,14829},{44495,0},{44504,0},{36015,14835},{44500,11441},{44498,0},{34323,14833},{44508,13200},{12508,14837},{40869,14547},{43641,13496},{12508,14838},{12508,14839},{12508,14843},{45272,0},{44535,12182},{44540,0},{44549,0},{44543,0},{40858,14848},{44552,0},{41352,14848},{44557,14854},{44555,0},{44556,14854},{44567,0},{44573,0},{44576,0},{44585,0},{44582,0},{14028,14863},{12475,14864},{43683,14865},{45006,14211},{44601,14869},{44598,14868},{43701,14870},{44616,14871},{43710,14873},{43725,14875},{42696,14876},{42744,14880},{43755,14879},{42720,14878},
{43764,14881},{43779,14883},{43788,14884},{42786,14888},{43818,14891},{42795,14887},{43803,14890},{44633,0},{42789,14889},{43839,14892},{42813,14896},{42852,14900},{43848,14898},{42837,14897},{42861,14904},{44709,14283},{43875,14905},{43887,14907},{42879,14906},{44729,0},{42897,14908},{42909,14914},{44588,0},{43908,14913},{44738,0},{42597,14904},{43926,14917},{44759,0},{42948,14920},{44756,0},{44767,10806},{44765,0},{44774,0},{43968,14927},{12580,14928},{44789,0},{44768,0},{43959,14926},{42990,14935},{44792,0},{42987,14931},{44798,0},{44801,0},{44804,0},{44815,10810},{12508,14941},{44820,14939},{13224,14863},{44832,14945},{44838,14948},{44841,14943},{44022,14942},{44046,14952},{44816,0},{44849,0},{44043,14951},{44037,14950},{44874,14956},{44871,14959},{44864,0},{44536,12182},{13509,14863},{44880,14963},{44896,10825},{44894,0},{12529,14962},{44097,14961},{44904,14967},{44910,12230},{44133,14975},{44919,14972},{43170,14974},{44931,14978},{44943,11252},{43200,14980},{43218,14983},{44169,14984},{44211,14989},{39745,14997},{44985,14996},{44997,14998},{45000,15001},{45009,15004},{45021,15005},{45024,15006},{45030,15009},{45036,15011},{45042,15013},{41700,15057},{16041,14863},{45045,11288},{45053,0},{45055,11334},{44897,0},{34443,15017},{45056,0},{13240,15019},{45062,0},{45065,0},{45066,13676},{41029,15022},{40650,15023},{45077,0},{45092,0},{45093,11347},{45052,10637},{45104,0},{14004,14863},{45132,11387},{41208,15052},{39984,15054},{39987,15056},{41235,15058},{41238,15059},{39990,15060},{41241,15062},{45197,0},{40840,15074},{45221,0},{45233,0},{40378,15076},{45242,0},{45251,0},{40008,15084},{45257,0},{45260,0},{45266,0},{45269,0},{44682,15129},{44865,15177},{44946,15195},{45278,0},{42558,15093},{45285,13237},{45290,0},{40488,15094},{43630,15097},{45296,0},{45288,14540},{44559,15097},{45305,0},{42579,15102},{45315,11870},{45318,11873},{45323,0},{39745,15201},{43689,15109},{40129,15110},{39745,15111},{39745,15112},{43704,15113},{39745,15114},{43692,15110},{43719,15115},{44646,15117},{43752,15116},{43791,15121},{44658,15118},{44655,15120},{43794,15119},{43797,15122},{43800,15123},{44685,15124},{43827,15127},{44679,15126},{43824,15125},{44697,15131},{43854,15130},{43860,15133},{44703,15132},{44706,15134},{43881,15137},{45410,0},{45407,0},{44730,15139},{43896,15138},{44734,15140},{44745,15141},{44733,15140},{44748,15142},{43917,15144},{40938,15145},{43935,15147},{44769,15149},{45450,12089},{45455,0},{44775,15145},{45326,0},{43974,15154},{43983,15158},{32418,15157},{45492,11921},{44808,15161},{44811,15159},{45467,0},{45489,12092},{45480,11194},{45497,0},{45506,0},{39745,15167},{45500,0},{39745,15169},{39745,15170},{39745,15171},{44052,15172},{44859,15173},{44070,15176},{45525,11926},{32430,15174},{39745,15178},{39745,15179},{40914,15181},{45555,11645},{39745,15183},{45548,0},{44898,15187},{45560,0},{39745,15188},{45567,11933},{45556,11645},{44136,15190},{44928,15192},{39745,15191},{39745,15193},{36969,15194},{44172,15197},{44955,15196},{41850,15181},{44970,15198},{39745,15200},{45599,0},{39745,15202},{37867,15244},{39745,15203},{39745,15205},{39745,15204},{39745,15206},{39745,15207},{39745,15208},{45632,0},{36987,15211},{32475,15214},{45647,0},{45554,0},{31911,15212},{45641,0},{34002,15216},{45652,11335},{45654,12129},{45653,0},{45657,11973},{42394,15220},{45668,0},{45665,0},{42319,15199},{45660,14472},{45663,15028},{45672,12136},{37011,15225},{45680,0},{45681,11985},{45686,0},{37029,15229},{41439,15181},{38755,15230},{37867,15232},{37867,15231},{38755,15234},{45629,0},{38755,15233},{37867,15235},{38755,15236},{45210,15237},{45232,15238},{45716,0},{45717,14172},{45725,0},{36033,15241},{41745,15209},{45283,13496},{38487,15181},{40110,15181},{45261,15094},{45628,13536},{45738,14841},{37068,15252},{45761,0},{40864,15254},{45770,0},{45773,0},{42558,15258},{45779,0},{45782,0},{41377,15262},{45788,0},{45792,12205},{45789,12070},{45795,11141},{43692,15268},{40129,15267},{45812,0},{45805,14564},{40129,15271},{45818,0},{45809,0},{40129,15274},
{45827,0},{40129,15276},{45836,0},{45839,0},{40129,15280},{40129,15277},{40129,15282},{40129,15281},{40129,15286},{45857,0},{45749,0},{40129,15284},{40129,15288},{45851,0},{45872,0},{40129,15289},{45875,0},{45863,0},{45879,15294},{40129,15292},{40129,15296},{45899,0},{45908,0},{45902,0},{40129,15301},{45887,0},{45896,0},{40129,15303},{36270,15305},{45914,0},{45923,0},{45918,15153},{40129,15309},{45935,0},{40129,15310},{36285,15312},{32386,15317},{36282,15316},{45944,0},{45941,0},{45962,0},{45957,11924},{45971,0},{45974,0},{45968,0},{40129,15325},{31900,15250},{36306,15328},{45752,0},{40129,15327},{45989,0},{45980,0},{45992,0},{45998,0},{45995,0},{46001,0},{46004,0},{46005,11932},{38134,15336},{46010,0},{46016,0},{14028,15340},{12508,15339},{39427,15342},{46028,0},{46031,0},{40129,15341},{46034,0},{45755,0},{38479,15251},{12475,15345},{40129,15346},{46043,0},{46046,0},{46052,0},{42318,15351},{45800,0},{46058,0},{46064,0},{46067,0},{46070,0},{46073,0},{46076,0},{46079,0},{46080,11942},{13240,15361},{16041,15340},{46088,0},{46089,15366},{46097,0},{46103,0},{46106,0},{36390,15369},{34005,15370},{36393,15371},{46118,0},{46127,0},{41607,15373},{44328,15374},{46126,15026},{46130,0},{46133,0},{36411,15378},{14004,15340},{12529,15379},{36420,15381},{46146,11989},{13224,15340},{13509,15340},{12580,15383},{46154,0},{46049,0},{46157,0},{46163,0},{46160,0},{46166,0},{46175,0},{45192,15389},{46172,0},{46178,0},{41244,15389},{46190,0},{45720,15395},{46196,0},{46191,12156},{46199,0},{41280,15389},{46201,15245},{46205,0},{46214,0},{46211,0},{46208,0},{46200,15245},{46061,0},{46316,0},{46220,0},{46222,15255},{41355,15409},{46221,15255},{46226,0},{42576,15410},{46230,14547},{46233,15093},{46244,0},{41376,15415},{12508,15416},{12508,15417},{46254,12071},{45808,15419},{46262,0},{46266,15421},{45819,15425},{46279,14877},{46284,15427},{46278,15128},{46285,15275},{46286,0},{46293,15430},{46296,15429},{46303,15283},{46300,15285},{46306,15287},{46297,15278},{46314,15437},{46299,15436},{46318,15291},{46302,15440},{46326,15441},{46317,15443},{46305,15444},{46294,15279},{46339,15295},{46337,0},{46342,15298},{46327,15290},{46353,15450},{46348,14315},{46338,15452},{46341,15453},{46347,14315},{46363,15304},{12475,15455},{46362,15456},{46374,15457},{46378,15313},{46384,15314},{12580,15464},{12475,15462},{46383,15465},{14028,15463},{13224,15463},{46377,15466},{46354,15300},{34914,15468},{46417,15326},{12580,15474},{46428,15473},{46425,11235},{46416,15478},{46440,14702},{34938,15484},{34941,15482},{46457,0},{46429,15473},{38133,15486},{46466,0},{39798,15491},{46469,0},{38745,15495},{46493,0},{40203,15499},{46498,13401},{46500,14987},{46506,15501},{46267,15421},{46315,15249},{35016,15511},{16041,15463},{46537,11950},{46541,0},{46538,0},{45495,15477},{46380,15477},{46547,0},{46542,15516},{14004,15463},{13240,15519},{46562,0},{13240,15521},{46051,15502},{44326,15522},{46572,13870},{46577,0},{46569,15026},{46580,0},{45081,15522},{12529,15529},{46592,0},{13509,15463},{46595,0},{12529,15532},{35214,15533},{46604,0},{46607,0},{46610,0},{46611,15048},{46634,0},{46643,0},{46649,0},{46644,15079},{46655,0},{46650,15242},{46661,0},{46665,13208},{46215,15557},{46674,13920},{46679,0},{36021,15556},{46355,0},{45772,15681},{46686,11047},{46691,0},{43639,15566},{46694,0},{46697,0},{46703,0},{45300,15563},{46709,0},{44568,15566},{43648,15570},{46715,0},{44577,15570},{46718,0},{46721,0},{12508,15574},{43318,15640},{46726,15576},{46735,14874},{46727,0},{44622,15578},{46739,0},{46742,0},{46683,15249},{46745,0},{46754,0},{46746,15583},{46757,0},{46760,0},{46763,0},{46775,0},{46766,0},{46772,0},{46778,0},{46781,0},{46793,0},{46790,0},{46787,0},{45891,15599},{46796,0},{47055,15300},{46802,0},{46805,0},{46810,15148},{46814,0},{46808,0},{46817,0},{46820,0},{46823,0},{46809,15148},{46826,0},{46832,0},{46829,0},{46769,0},{46835,0},{46838,0},{46850,0},{46853,0},{46844,0},{46856,0},{46841,0},{12475,15620},{46865,0},{46784,0},{46874,0},{46871,0},{46877,0},{46868,0},{44907,15626},
{12580,15627},{46886,0},{46847,0},{46895,0},{46896,11650},{46901,0},{46687,11047},{46907,0},{46913,0},{44193,15639},{46920,14750},{46748,0},{46928,0},{13240,15643},{46934,0},{46937,0},{46938,12243},{46941,11950},{46946,0},{46950,15517},{46953,15517},{46958,0},{46961,0},{46966,11975},{46969,15024},{46967,0},{46988,0},{46973,0},{46970,0},{46977,15223},{46976,0},{46986,15661},{46128,15661},{46982,0},{46971,13873},{46991,0},{46733,0},{46992,12259},{46997,0},{47003,0},{12529,15668},{47007,12263},{47010,12266},{45147,15672},{46179,15673},{41748,15674},{47030,0},{47031,15552},{42574,15564},{40029,15680},{47054,0},{41286,15682},{47410,15248},{37867,15804},{47063,0},{44554,15688},{47069,0},{47073,15258},{46704,15690},{46239,15692},{47081,0},{47087,0},{47090,0},{41394,15697},{47096,0},{47105,0},{47058,15091},{47115,15420},{46270,15704},{46731,15703},{46269,15704},{47120,0},{47138,0},{47129,0},{47133,15713},{46767,15713},{47148,15718},{47088,15414},{46782,15719},{47174,0},{47180,0},{47190,15731},{47199,14648},{47207,0},{46380,15737},{46845,15740},{47223,15740},{47226,11221},{47229,11224},{47243,0},{47250,15751},{39745,15754},{47269,11245},{47268,11245},{47267,0},{47277,12322},{41850,15761},{40914,15761},{40209,15763},{40129,15764},{47108,0},{47297,0},{46923,15703},{47059,15091},{47306,0},{47307,11281},{35865,15771},{47318,0},{46947,15737},{47319,15364},{47324,0},{47328,11337},{35146,15777},{47331,11715},{47339,0},{47340,12133},{47349,15024},{45799,15702},{46581,15781},{41064,15782},{47352,15785},{47360,0},{47363,0},{47369,0},{35949,15792},{47379,11355},{35976,15796},{47387,0},{41439,15761},{35982,15797},{47396,0},{40110,15761},{38487,15761},{47399,0},{44452,15800},{43525,15800},{47034,15801},{47406,15679},{47409,15248},{38755,15806},{47684,0},{47465,0},{35466,15809},{45297,15810},{47068,15812},{47441,0},{47433,15412},{47445,15261},{45303,15810},{42598,15818},{47474,0},{47469,15424},{47468,0},{47477,0},{47489,0},{47142,15828},{47145,15827},{47448,15819},{47492,0},{47498,0},{47456,0},{47493,15720},{47501,0},{47502,15448},{47184,15835},{45454,15837},{47519,0},{47522,0},{47526,11925},{35781,15843},{47537,0},{47540,0},{14028,15847},{46456,15845},{47546,0},{12508,15850},{47555,0},{47558,0},{47561,0},{46509,15855},{47577,11943},{35832,15860},{14004,15847},{16041,15847},{13240,15861},{47591,0},{47595,15518},{35916,15866},{47606,0},{13509,15847},{47612,0},{46980,15869},{47624,0},{35830,15859},{45087,15872},{47615,0},{47621,0},{46983,15869},{47627,0},{47628,15788},{44332,15872},{46579,15873},{47470,15424},{12529,15879},{35961,15880},{13224,15847},{47651,0},{12475,15881},{12580,15884},{47660,0},{47663,0},{47664,15394},{47665,15394},{47667,12164},{47675,0},{47670,12272},{47576,0},{47681,0},{47426,0},{12580,15959},{47693,0},{47696,0},{47442,15900},{47699,0},{47703,15694},{45309,15899},{47711,0},{47714,0},{47720,0},{47721,15905},{47478,15908},{47732,0},{47151,15909},{42597,15915},{47751,15723},{47151,15913},{45891,15915},{45438,15915},{47757,15719},{47761,15162},{47760,15162},{47764,15318},{47766,15745},{47763,15318},{12475,15924},{12508,15923},{46887,15925},{47783,0},{47786,0},{34962,15929},{46479,15928},{47792,0},{47793,14986},{47796,14728},{47800,13273},{47804,0},{47807,0},{13240,15936},{47813,0},{47816,0},{47819,0},{47818,12394},{47592,15940},{12529,15942},{35160,15943},{47834,0},{36402,15945},{47840,0},{47856,15951},{47841,15528},{47849,0},{47862,15877},{47571,15957},{40680,15956},{47870,0},{47876,0},{47799,13273},{47882,0},{47888,0},{47883,15045},{47891,0},{47892,13914},{47895,13202},{47688,15971},{47900,0},{47916,15896},{36810,15967},{47873,0},{47903,0},{47676,15969},{47912,0},{47925,11048},{44572,15978},{47939,0},{47706,15977},{47942,0},{47933,0},{47445,15981},{44587,15982},{47952,15983},{47957,0},{47958,15720},{47961,15913},{47966,0},{45429,15982},{47973,15146},{47969,0},{47970,15725},{47978,0},{47979,15727},{47187,15994},{47205,15994},{47987,0},{47990,0},{47996,0},{45540,15996},{47999,0},{48002,0},{48005,0},{46480,16003},{48006,10836},
{47926,11048},{48014,0},{33760,16004},{48017,0},{44181,16007},{44964,16008},{48028,15349},{47568,16010},{35835,16011},{48038,0},{48039,11681},{48042,11688},{48045,12394},{48050,0},{48053,0},{48056,0},{47335,16019},{48059,0},{48060,11722},{47850,16022},{47845,16021},{48065,0},{48071,0},{48072,15953},{48075,15955},{47954,0},{48080,0},{48086,0},{48087,13702},{48079,15779},{47924,0},{48095,0},{48096,11749},{45138,16034},{48027,15538},{41277,16036},{47025,16039},{47932,15099},{40011,16037},{48116,0},{48125,0},{48122,0},{48126,15983},{36471,16043},{48134,0},{48140,0},{48156,15976},{48149,0},{47448,16048},{47694,16051},{47415,16120},{47121,16055},{48161,0},{47736,16048},{48173,0},{48170,0},{48174,14643},{48179,0},{48182,0},{47181,16061},{46335,16063},{48192,15734},{45297,16051},{48200,0},{44863,16068},{48207,15477},{48212,0},{47274,16073},{48225,11934},{48224,0},{14028,16078},{40110,16076},{34968,16077},{40129,16080},{40914,16076},{39745,16081},{41850,16076},{48248,0},{48251,0},{48166,15707},{48254,0},{35839,16084},{35844,16086},{35847,16077},{14004,16078},{35868,16087},{48266,0},{16041,16078},{47325,16090},{48278,0},{47334,16093},{35934,16094},{46924,16083},{48290,0},{13509,16078},{48285,16025},{48299,0},{46542,16090},{47844,16097},{47871,16101},{48302,0},{48306,15869},{46953,16090},{48314,0},{48315,13566},{48317,0},{40353,16107},{35985,16108},{13224,16078},{48329,0},{48332,0},{41439,16076},{38755,16111},{48338,0},{37867,16114},{48341,0},{48337,15554},{47904,16116},{48356,0},{48359,0},{38487,16076},{48348,16045},{48572,0},{35469,16121},{48368,0},{48374,0},{48377,0},{48383,0},{47742,16128},{48389,0},{48390,15722},{47163,16131},{44713,16132},{47754,16134},{48407,0},{45892,16136},{48416,0},{48417,16067},{45553,16141},{48431,0},{12508,16144},{48446,0},{48443,0},{48440,0},{48452,0},{48458,0},{48455,0},{47571,16154},{48465,15504},{48590,0},{36342,16156},{48471,16085},{12529,16158},{48479,0},{48482,0},{13240,16161},{48486,12498},{48491,0},{48494,0},{48500,0},{12580,16167},{48513,16098},{48505,15033},{48512,0},{48472,16085},{46923,16154},{48516,15878},{48524,0},{48521,0},{48527,0},{48081,16154},{48506,0},{48533,0},{48466,15504},{48536,0},{48542,0},{48543,13709},{48548,0},{12475,16183},{48554,0},{31819,16182},{48563,0},{48566,0},{45265,16191},{45741,16191},{46662,16189},{48578,0},{48581,0},{36519,16192},{48380,0},{48591,16265},{48599,0},{48141,16200},{48604,15817},{48603,15817},{48156,16202},{47124,16203},{48612,16205},{48620,0},{48626,0},{44764,16208},{47188,16209},{48630,15732},{48629,0},{48635,0},{44787,16211},{44788,16211},{48636,15261},{48643,15337},{48645,15490},{48650,0},{48651,11659},{48657,11661},{48646,15490},{48654,13844},{48660,14740},{48663,14994},{48671,0},{48674,0},{47130,16203},{48683,0},{48680,0},{48686,0},{35853,16229},{48690,10870},{48695,0},{48699,10881},{48698,0},{47823,16234},{48710,0},{48717,10911},{48716,0},{48722,0},{48713,0},{48733,15380},{48728,0},{48725,0},{48741,15033},{48642,15337},{48732,15380},{48735,15983},{48740,0},{48744,15950},{46998,16240},{46545,16250},{31818,16253},{48765,10962},{48764,0},{48769,15798},{48770,0},{48771,15061},{48779,0},{48785,0},{48782,0},{40224,16225},{48794,0},{48585,16263},{48786,12248},{48582,16249},{48801,10658},{48804,16123},{48808,15104},{48812,0},{48142,16271},{48807,15104},{48816,15710},{48821,0},{47175,16274},{45456,16275},{48836,0},{48833,0},{47187,16279},{45468,16280},{48845,0},{47431,16283},{48195,16279},{48857,0},{48802,10658},{46495,16289},{46494,16289},{32530,16287},{40968,16290},{48864,11663},{44979,16291},{44226,16292},{48162,16293},{47049,16328},{48887,0},{49001,0},{48891,16296},{48899,0},{35859,16300},{36991,16301},{36990,16301},{35871,16302},{48914,0},{35946,16306},{48921,16176},{46594,16308},{48927,16176},{48931,15790},{47952,16293},{48933,16103},{48936,15791},{48930,15790},{48941,0},{48948,16317},{48947,0},{47866,16318},{48959,0},{48944,0},{48962,0},{48965,0},{36000,16322},{48975,15885},{45189,16326},{48981,16115},{48800,0},{48991,12622},{38131,16330},
{48981,15807},{49007,0},{49010,0},{49013,0},{49014,15819},{49022,0},{49019,0},{49025,0},{48399,16342},{49031,0},{49034,0},{47202,16345},{49043,0},{45466,16346},{49046,0},{45945,16346},{49052,0},{49055,0},{47280,16352},{40110,16353},{40914,16353},{12508,16358},{49067,0},{38755,16357},{14028,16356},{39745,16359},{40129,16360},{49085,0},{47298,16363},{49090,15766},{49097,0},{12529,16367},{49098,10574},{49099,10574},{14004,16356},{49105,16232},{49109,0},{13240,16370},{49104,16303},{16041,16356},{49188,16115},{49088,0},{46962,16371},{12580,16372},{49127,0},{49119,16309},{47110,16379},{48942,16376},{48852,16376},{49136,0},{47872,16377},{49149,15516},{49142,0},{48748,16382},{49152,13568},{49154,0},{49161,15517},{13509,16356},{32856,16388},{41850,16353},{12475,16389},{13224,16356},{41439,16353},{49172,0},{49175,0},{38487,16353},{49087,15807},{49176,16117},{48996,16393},{34494,16397},{48150,16398},{48160,16400},{47097,16402},{47733,16403},{49214,0},{48150,16401},{49197,16401},{49229,0},{49224,15838},{49223,0},{49218,16410},{49235,0},{49215,15730},{45963,16412},{48639,16413},{45499,16412},{46717,16402},{49244,0},{49247,0},{49250,0},{49262,0},{49259,0},{49253,0},{49265,0},{49002,16423},{49274,0},{49276,15505},{49275,15505},{49327,15035},{49278,12240},{49283,0},{49286,0},{31183,16428},{49494,10377},{31183,16499},{49292,0},{14004,16429},{49295,0},{36993,16432},{49301,0},{49304,0},{49307,0},{49392,16331},{49308,16437},{49348,15037},{47602,16438},{49316,0},{49279,12240},{49325,0},{49319,0},{49320,16238},{49331,0},{49347,14783},{49335,16179},{49340,0},{49328,0},{49349,0},{45640,16447},{49352,0},{41142,16451},{46105,16452},{13509,16429},{49361,0},{14028,16429},{40750,16454},{49364,0},{49367,0},{49370,0},{16041,16429},{49373,0},{13224,16429},{49376,0},{49385,0},{49311,15807},{49388,0},{49391,0},{49396,11662},{29550,16465},{49400,0},{49403,0},{49409,0},{49410,16276},{49413,16398},{49418,0},{49411,16276},{45924,16467},{49425,15738},{49047,16473},{47983,16474},{49439,0},{49529,0},{49442,0},{48421,16480},{49448,0},{49449,15496},{49452,13845},{34992,16486},{49455,14734},{49450,15496},{49472,0},{49473,15708},{49481,0},{49526,0},{49143,16514},{49487,0},{31131,16497},{49502,0},{49508,0},{49503,11691},{36364,16504},{49514,0},{49521,11697},{49535,0},{47601,16512},{49540,13878},{49550,0},{49484,0},{44353,16520},{49559,0},{49556,0},{49551,16448},{49566,15037},{49571,0},{49563,15035},{49539,13878},{48756,16524},{49577,0},{47382,16523},{45114,16520},{49583,0},{49580,0},{49584,11740},{49532,0},{47646,16526},{49589,0},{41196,16531},{49590,16185},{49596,15050},{49605,11765},{49604,0},{49591,16109},{49610,0},{49611,15067},{49445,0},{49406,0},{49614,13211},{49620,12392},{49619,0},{49622,0},{48987,16541},{49838,0},{49704,16364},{37044,16614},{49631,0},{49633,16399},{49011,16544},{45325,16545},{47748,16546},{49643,0},{49650,15736},{49651,15736},{49646,0},{49655,0},{49664,0},{49661,0},{49443,16555},{49668,16555},{49676,0},{48420,16557},{49682,0},{49626,12969},{40974,16561},{40914,16542},{47563,16564},{47562,16564},{44973,16563},{49686,11665},{49695,16294},{47148,16546},{47493,16546},{46762,16566},{49845,16556},{37179,16570},{49715,0},{14004,16572},{35079,16574},{49719,11306},{49726,16505},{49725,16505},{36741,16576},{35094,16577},{48273,16578},{49739,0},{49742,0},{49709,0},{49743,16514},{49752,16251},{49751,0},{49769,0},{48090,16580},{49763,0},{47002,16588},{49772,0},{49775,0},{49708,16494},{49781,0},{49784,0},{13509,16572},{47386,16596},{49785,11370},{35226,16597},{49799,0},{48055,16578},{49800,11401},{49808,0},{40905,16542},{49805,0},{14028,16572},{44415,16603},{13224,16572},{41439,16542},{35304,16604},{49815,11429},{16041,16572},{49821,11430},{45213,16608},{38487,16542},{40026,16611},{47916,16613},{49820,0},{49857,11050},{49862,0},{49865,0},{49871,0},{49218,16624},{49866,16549},{49877,0},{49880,0},{49428,16624},{46840,16629},{49890,16477},{49872,16477},{49653,16626},{47238,16629},{49895,0},{49896,16615},{49904,0},{46867,16633},{47259,16633},{47286,16635},
{49910,0},{38755,16637},{49916,0},{12508,16642},{39745,16641},{49922,0},{50084,0},{37867,16693},{49931,0},{49937,0},{49934,0},{49938,15507},{49939,15507},{35038,16648},{49946,0},{49947,10569},{49952,0},{12529,16651},{35082,16652},{49964,0},{49967,0},{13240,16656},{49973,0},{49477,16643},{47875,16659},{49746,16660},{49985,0},{49746,16663},{49986,16524},{49997,0},{49767,16663},{50007,16592},{49983,13570},{50010,13886},{50012,0},{35229,16675},{50021,0},{12580,16676},{50036,0},{50037,11758},{50045,0},{50046,16680},{50051,0},{40129,16684},{50057,0},{50060,0},{12475,16687},{35316,16688},{50069,0},{35325,16690},{50075,0},{50078,0},{49851,16616},{49943,0},{49856,0},{46720,16697},{50094,16401},{47100,16697},{50167,15858},{48621,16699},{50102,0},{50103,16627},{50109,16702},{49884,16702},{50114,0},{50120,0},{50117,0},{50121,16476},{50126,0},{50129,0},{50135,0},{50141,0},{48426,16712},{50144,0},{38487,16696},{50148,13846},{46915,16715},{40110,16696},{50147,0},{50153,0},{50090,0},{50154,14733},{50162,0},{16041,16731},{50172,16492},{50179,15767},{47730,16725},{47301,16726},{50189,0},{35037,16730},{50195,0},{13509,16731},{50196,11314},{50201,0},{12529,16734},{50208,16735},{50213,0},{49974,16738},{50218,15036},{50219,0},{50225,0},{50226,13713},{50229,16660},{50234,0},{50004,16745},{50183,0},{50240,0},{13224,16731},{50246,0},{50249,0},{50250,14146},{50256,11381},{12580,16751},{50261,0},{40914,16696},{12508,16755},{50273,0},{50268,15053},{50274,11407},{41850,16696},{50280,11425},{50159,0},{43519,16757},{14004,16731},{50283,15069},{50288,0},{50292,11437},{13240,16763},{50088,13813},{14028,16731},{12475,16765},{50307,16609},{50308,16609},{50301,13209},{48345,16722},{50306,0},{50171,0},{50515,16391},{37047,16848},{50552,0},{50315,0},{49867,16772},{50321,0},{48186,16775},{50327,0},{50329,16282},{50333,0},{50325,15990},{50328,16282},{50336,0},{49659,16780},{50351,0},{50346,16781},{50331,16626},{50352,16702},{50127,16787},{48853,16788},{50355,16789},{50139,16789},{50372,0},{50378,0},{40977,16791},{46914,16794},{40110,16796},{50381,0},{44976,16797},{40914,16796},{50399,0},{50402,0},{50408,0},{50404,15506},{50403,15506},{50411,0},{44302,16804},{45048,16804},{50417,0},{13509,16806},{50423,0},{35088,16808},{50432,0},{14004,16806},{50435,0},{50441,0},{50366,0},{50444,0},{50445,15036},{50448,16664},{50453,0},{50456,0},{13224,16806},{50466,16672},{50462,0},{50471,0},{35235,16827},{50486,0},{50492,0},{44433,16833},{41850,16796},{43518,16832},{50495,0},{50502,11762},{14028,16806},{41439,16796},{50507,0},{38487,16796},{50516,0},{50519,0},{35310,16836},{45216,16840},{49677,16786},{35334,16842},{50534,0},{50531,0},{50540,0},{50537,0},{16041,16806},{50543,0},{50546,0},{40023,16849},{50324,0},{36759,16774},{50553,16770},{50564,0},{49404,16856},{50573,0},{50579,0},{47133,16860},{50585,0},{50591,0},{50594,0},{50337,16862},{49884,16862},{50600,0},{47232,16861},{50604,16867},{49677,16856},{50609,0},{50810,0},{50618,0},{50615,0},{50624,0},{38755,16877},{39435,16875},{48447,16876},{50639,0},{41541,16880},{50636,0},{50648,0},{39745,16881},{48448,16876},{49701,16884},{50655,15720},{50184,16886},{50181,16886},{50663,0},{50664,15718},{50669,0},{35856,16891},{50672,0},{50678,0},{33945,16893},{12529,16894},{50690,0},{50692,12451},{50718,16904},{48495,16898},{48852,16899},{49332,16899},{49755,16900},{50705,0},{50709,16819},{50668,16298},{49750,16902},{50717,0},{50712,16666},{50660,0},{50700,16585},{34140,16908},{12580,16909},{50695,16165},{44412,16911},{50744,0},{50741,0},{40129,16912},{50691,12451},{50753,0},{12508,16916},{50756,0},{45204,16919},{50763,16460},{12475,16923},{34320,16922},{50762,0},{41737,16924},{50775,16710},{13240,16926},{45234,16927},{50774,0},{34392,16930},{50796,16555},{50795,0},{33816,16883},{50805,12350},{50565,15896},{37867,16934},{36756,16933},{13537,17017},{12508,17014},{50819,0},{47104,16940},{47460,16940},{49215,16941},{50828,0},{46843,16943},{49434,16941},{48618,16944},{50835,16410},{50840,0},{49879,16947},{50849,0},{50844,16477},{50852,0},
{50859,16938},{50610,16952},{50853,16710},{50850,16787},{50865,16789},{47266,16954},{47547,16954},{50873,0},{50879,0},{37867,16958},{40212,16960},{38755,16961},{50894,0},{44223,16963},{51062,0},{50900,0},{50909,0},{46792,16967},{46759,16971},{50916,16298},{46936,16973},{50921,0},{33909,16975},{12580,16976},{50933,0},{33957,16978},{50938,16812},{12529,17007},{50945,0},{50948,0},{50951,0},{50185,16966},{50954,0},{49998,16985},{44361,16988},{50958,16747},{50962,16820},{50963,0},{50966,0},{50970,16906},{34125,16989},{50942,0},{12475,16993},{50941,16510},{50986,13892},{50985,13892},{50984,0},{39745,16996},{51002,0},{50999,0},{43536,16998},{44448,16997},{34266,17001},{44484,17003},{40129,17004},{50937,16812},{51020,0},{38871,17008},{51017,0},{51032,0},{51029,0},{51035,0},{51038,0},{41736,17013},{51008,0},{35374,17012},{34404,17016},{49447,17015},{50085,16999},{36837,16938},{51056,0},{48778,17019},{51065,0},{51067,11482},{34446,17022},{51317,0},{50574,17024},{51077,0},{51080,0},{51081,15836},{47217,17028},{51087,16865},{46795,17031},{46858,17030},{49228,17032},{51104,0},{50116,17036},{50355,17037},{51088,17039},{51125,0},{51131,0},{50619,17037},{51134,0},{50886,17046},{51149,0},{51144,13848},{50896,17050},{51153,14743},{50895,17050},{50904,17053},{51162,16970},{51166,15508},{51085,15739},{51169,15509},{51165,15508},{51168,15509},{51329,0},{37041,17109},{51173,0},{47310,17059},{51180,11308},{51185,0},{49960,17062},{51189,11320},{49959,17062},{50811,17108},{49819,17087},{48705,17066},{51201,16386},{49758,17068},{51210,16985},{50184,17053},{51208,15039},{50940,17071},{51209,0},{51221,0},{51218,0},{51234,11384},{51233,0},{51225,16907},{51228,15041},{51237,16598},{51242,0},{51243,14488},{51245,0},{48105,17082},{51251,0},{51248,0},{51257,0},{51264,15066},{51269,0},{37686,17086},{32986,17089},{51270,11433},{51278,0},{51120,16786},{51273,15075},{51285,13199},{51197,0},{51281,0},{51291,16610},{36481,17099},{35373,17100},{51305,0},{36822,17099},{51312,11470},{51311,0},{51315,12166},{51320,0},{51071,0},{49129,17156},{51344,0},{51338,0},{40129,17177},{51353,0},{51356,0},{51357,17033},{51361,15471},{51368,0},{51363,15470},{51360,15471},{48001,17123},{47532,17122},{51373,16071},{51372,16071},{51364,15470},{50140,17125},{51120,17115},{51380,0},{48216,17123},{51126,17127},{50868,17128},{51389,0},{51395,0},{38755,17133},{39745,17135},{51410,0},{51413,0},{51419,0},{51421,15510},{51420,15510},{51431,0},{51428,0},{13240,17193},{45244,17184},{50922,17146},{51443,0},{12580,17148},{12529,17151},{51458,0},{51467,0},{48289,17155},{51473,0},{50002,17157},{51479,0},{51476,0},{51482,0},{51485,0},{51486,15039},{50478,17164},{50472,17163},{51492,16825},{50976,17166},{12475,17165},{51506,0},{51503,0},{51509,0},{51515,0},{51516,14796},{51521,0},{47890,17175},{32985,17178},{35320,17179},{12508,17181},{51542,0},{51541,16691},{51539,0},{51551,0},{51554,0},{37867,17185},{50314,17188},{51569,0},{51572,0},{51578,0},{51587,0},{51461,0},{51321,17144},{35439,17113},{51437,0},{51605,0},{51597,17115},{35634,17200},{48411,17202},{47505,17202},{51609,15713},{48192,17202},{47979,17202},{47757,17202},{51614,0},{47242,17206},{51626,0},{51629,0},{51632,0},{51638,0},{51635,0},{51828,17038},{51644,0},{41523,17216},{51653,0},{40957,17216},{51630,17211},{41529,17214},{51130,17218},{51657,17220},{47923,17198},{51664,16153},{51668,0},{51671,0},{51824,0},{51698,0},{51414,17225},{51678,15357},{51686,0},{51687,17230},{51175,17233},{51701,0},{47586,17234},{51707,0},{51710,0},{51694,12497},{51718,15032},{48507,17238},{51717,15032},{51596,0},{50001,17240},{51725,0},{51732,17243},{51726,16821},{51740,0},{51744,17249},{51743,0},{51755,0},{51752,0},{51762,16666},{51663,16153},{51770,0},{51522,17257},{51623,0},{51779,0},{51782,0},{51645,16786},{51603,16853},{51785,0},{51789,17092},{51786,16766},{35319,17264},{51790,17182},{45243,17266},{51342,17265},{51803,0},{51806,0},{36054,17270},{51804,12273},{51695,0},{51827,0},{35437,17349},{51836,0},{51842,0},{46804,17281},{46765,17282},{51854,0},{51851,0},
{51105,17286},{51857,0},{50358,17289},{51876,17291},{51870,17291},{51879,17273},{51861,17211},{40960,17294},{51893,0},{51896,0},{51899,0},{51901,14979},{51905,0},{51900,14979},{51887,0},{51911,0},{52053,12497},{52056,17110},{51926,0},{51929,0},{51938,0},{51174,17313},{48049,17314},{51944,0},{51193,17316},{50530,17337},{51953,0},{51959,0},{51954,16305},{51962,0},{48318,17321},{51968,0},{41167,17323},{51424,17308},{41661,17323},{50974,17325},{51972,17245},{50659,17325},{51937,16427},{51756,17328},{51983,0},{51990,16985},{51993,16814},{51998,0},{51955,16305},{52004,0},{51192,17316},{34344,17336},{52016,0},{52019,0},{52025,0},{52028,0},{52034,0},{50784,17337},{52031,0},{52037,0},{51076,17346},{49266,17303},{36486,17348},{51832,16853},{52049,0},{52052,0},{51837,11142},{51816,17421},{35436,17420},{51348,17354},{52131,17306},{49656,17355},{52069,15467},{52071,15469},{52072,15469},{52070,0},{47967,17358},{48834,17359},{52082,0},{52083,15749},{51862,17360},{52086,17215},{52097,0},{52091,0},{51390,17372},{52121,0},{49267,17375},{51423,17378},{52137,17227},{52140,16496},{52145,0},{48267,17383},{52259,0},{48729,17387},{52166,0},{52172,0},{50013,17391},{52180,15040},{52178,0},{52185,15042},{52181,0},{52190,0},{52184,0},{52192,15042},{52197,17400},{50983,17398},{52203,17160},{52208,0},{48558,17403},{52213,17334},{51252,17398},{52212,17405},{52157,0},{52220,0},{51288,17409},{52223,0},{52233,17410},{52156,17065},{36477,17414},{52241,0},{45729,17415},{52193,0},{52250,0},{52061,0},{36825,17416},{52253,0},{52256,0},{52130,0},{52283,0},{52286,0},{52290,17205},{52293,15467},{52287,17205},{46822,17433},{46801,17432},{51861,17434},{46777,17435},{52310,0},{52277,0},{52313,0},{46837,17427},{52314,17426},{52098,17434},{52101,17439},{52322,0},{52327,17305},{52033,17470},{52331,0},{52334,0},{52337,0},{52343,0},{52349,0},{49123,17449},{52167,17450},{50023,17452},{52361,0},{52358,0},{52368,15040},{52176,17458},{51978,17457},{52353,17458},{52379,0},{52385,0},{52382,0},{52388,0},{52389,17330},{52332,17430},{51684,17430},{48973,17464},{52289,0},{52394,0},{52400,0},{52397,0},{52403,0},{52275,17408},{52412,0},{52414,17098},{51561,17469},{52404,17186},{52274,0},{52413,17098},{52418,0},{52328,0},{52424,0},{51568,17474},{52430,0},{36489,17478},{52431,15042},{52442,0},{37863,17483},{51310,17476},{52637,0},{51334,17545},{47523,17484},{51621,17485},{52463,0},{52466,0},{52470,15479},{52468,15481},{52475,0},{52477,15483},{52467,15481},{51639,17485},{44116,17493},{47223,17484},{52476,15483},{52482,17289},{44913,17493},{52485,17296},{52496,0},{52471,15479},{52489,15487},{52493,0},{52488,15487},{52501,17302},{52505,0},{52509,17310},{51930,17504},{52338,17505},{52525,17509},{52529,0},{52526,0},{49122,17507},{52500,17302},{51687,17503},{52532,0},{52365,17511},{50022,17512},{52541,0},{52547,0},{52544,0},{52551,17511},{52557,17255},{52560,17457},{52378,17515},{51933,17503},{52563,14499},{52565,0},{52571,0},{52574,0},{48972,17526},{51628,17530},{52597,17472},{52604,0},{52601,0},{52236,17531},{52059,17535},{52610,0},{51807,17539},{52596,17537},{52614,17305},{52631,0},{51582,17541},{52628,0},{52641,17111},{52827,17482},{52649,0},{52652,0},{51864,17552},{52659,17554},{52679,0},{51870,17555},{52092,17555},{52673,0},{52674,17556},{52688,0},{52682,0},{52685,0},{52691,0},{52695,17291},{52698,17554},{52269,17568},{52709,0},{52711,15636},{52716,17311},{52721,0},{52724,0},{52147,17574},{52646,0},{52826,0},{52725,16515},{52731,17576},{52736,0},{52739,0},{52710,15636},{52742,0},{44374,17581},{52748,0},{52751,0},{45141,17581},{52766,0},{52767,14495},{52770,14799},{52778,0},{52775,0},{52772,0},{52769,0},{52779,14812},{52661,0},{50278,17595},{52782,17525},{52790,0},{50277,17595},{52726,16515},{52761,17585},{52793,0},{52805,0},{52796,0},{52425,17599},{52801,17473},{52419,17600},{52808,0},{51573,17603},{52791,12463},{52551,17585},{52814,0},{52820,0},{52817,0},{52966,17176},{52832,0},{49377,17657},{47991,17612},{52653,17613},{52847,0},{51885,17616},{52856,0},{51634,17617},{52692,17621},
{52866,15757},{52848,17368},{52875,17369},{52883,0},{52878,17567},{53006,0},{52892,0},{52983,12407},{52146,17632},{52901,0},{50200,17633},{52910,0},{52913,0},{49155,17638},{52353,17639},{52113,17629},{52119,17629},{52922,0},{52924,17226},{52548,17639},{52928,0},{52929,17584},{52923,17139},{50031,17644},{52937,0},{52938,17333},{52943,0},{52946,0},{45165,17651},{52566,17650},{52956,14810},{52961,0},{52965,17176},{52976,0},{52979,0},{51282,17659},{52982,0},{52994,0},{53000,0},{53012,0},{53009,0},{52621,17664},{51697,17668},{52443,17672},{51813,17671},{53183,0},{51706,17694},{53033,0},{53036,0},{52857,17679},{53042,0},{53048,0},{52497,17681},{53051,0},{46834,17684},{52833,17687},{52102,17686},{51892,17683},{52632,17724},{53070,17631},{53177,0},{53078,0},{50427,17693},{51945,17694},{53030,0},{53186,0},{53088,17695},{50221,17697},{53093,0},{53102,0},{53096,0},{53107,15043},{53108,0},{53111,0},{52758,17704},{50035,17707},{53123,0},{53117,0},{53120,0},{53129,0},{53130,17711},{53141,0},{53144,0},{53138,0},{53150,0},{51463,17676},{51019,17718},{53159,0},{53115,17720},{53075,0},{52620,17721},{53023,17727},{51921,17689},{52821,17723},{53229,17486},{47244,17731},{53196,17556},{53201,0},{53210,0},{46468,17735},{53202,17624},{53055,17737},{53215,15492},{53214,15492},{46902,17735},{53194,15748},{53222,0},{53219,0},{52104,17737},{53225,0},{53327,0},{53248,17317},{52518,17745},{53243,0},{53240,0},{53252,0},{53255,0},{50220,17752},{53259,17701},{53262,17454},{53263,17454},{53254,17750},{53267,0},{53274,17757},{53268,15043},{47013,17759},{50262,17760},{53279,0},{53286,17230},{53289,17649},{53294,0},{53332,17453},{52291,17743},{53317,17755},{53192,0},{53145,17766},{52968,17765},{53151,17768},{53309,0},{53318,0},{53244,17154},{52158,17749},{53022,17729},{53324,0},{53330,0},{53223,12449},{53336,0},{53339,0},{53342,0},{53343,17567},{53351,0},{53354,0},{52110,17782},{53363,0},{53360,0},{53357,0},{53366,0},{53368,15494},{47791,17790},{53378,0},{48018,17790},{53367,15494},{53489,0},{53379,12391},{53480,0},{53175,17827},{53387,0},{53390,0},{53391,17798},{53400,17799},{53405,0},{53411,0},{53414,0},{53403,17074},{53416,16829},{53418,17585},{48099,17804},{53415,16829},{53423,0},{53283,17806},{53426,0},{46609,17811},{51682,17812},{53429,0},{53432,0},{53441,0},{53445,15387},{53301,17814},{53448,15539},{53447,0},{53449,15539},{53453,0},{53451,15386},{51616,17820},{53308,17821},{53465,0},{53226,17791},{53469,17806},{53477,0},{53481,17795},{53474,0},{53226,17846},{47256,17831},{52842,17830},{52869,17832},{53501,0},{52114,17836},{53505,17834},{53502,17737},{53514,17837},{53352,17839},{53510,0},{53528,0},{53529,17374},{53537,0},{53543,0},{53534,0},{41292,17874},{53549,0},{53645,0},{53554,16503},{53553,16503},{53558,0},{51588,17884},{53561,0},{53559,17074},{47887,17856},{53573,0},{53565,17458},{53574,17329},{53585,0},{53582,0},{53577,17587},{53124,17862},{53591,0},{53599,15051},{53575,17329},{53604,17867},{53600,0},{53301,17869},{53624,0},{53615,0},{53618,0},{53612,0},{53619,15540},{53625,15541},{53632,15545},{53630,0},{53633,0},{53466,17879},{53073,17846},{53642,0},{53663,0},{46891,17886},{53660,0},{52884,17889},{53676,17685},{53675,0},{53672,0},{53373,17885},{52113,17895},{53350,17894},{53681,0},{52678,17897},{52258,17907},{41292,17924},{53714,0},{53717,0},{50685,17904},{53723,0},{53724,17854},{53097,17895},{53729,0},{52927,17912},{53741,0},{53750,0},{53596,17917},{53759,0},{53753,0},{51775,17921},{53765,0},{53766,15051},{53709,17864},{53457,17923},{51640,17887},{53789,0},{53786,0},{53775,17927},{53772,17926},{53792,0},{53796,15545},{53801,0},{53804,0},{53805,17773},{53550,17902},{52860,17936},{53813,0},{46890,17938},{53817,17837},{53822,0},{53520,17941},{48649,17942},{53836,12234},{53831,0},{53834,0},{53523,17946},{48858,17942},{53841,12236},{53812,15926},{53842,12236},{53835,12234},{50431,17950},{49518,17951},{53858,0},{51223,17954},{53867,0},{51759,17956},{53873,0},{53742,17958},{53877,17864},{48969,17957},{53882,0},{53891,0},{53595,17962},{51774,17964},
{53897,0},{53758,17966},{53903,0},{51639,17936},{53907,17970},{53905,15546},{53918,0},{53906,0},{52674,17936},{53928,17899},{53924,0},{53859,17448},{53933,0},{53940,15926},{53939,0},{53945,0},{53952,17983},{53957,0},{53960,0},{53964,17441},{53972,0},{54063,17846},{53978,0},{53975,0},{53984,0},{54062,0},{53985,17149},{51451,17996},{53986,17149},{53990,0},{53996,0},{53406,17999},{54000,17911},{48763,18001},{54008,0},{54009,17918},{54014,0},{49599,18005},{49369,18005},{54023,0},{52584,18006},{54024,17528},{46173,18010},{54032,0},{54027,17926},{54038,0},{54026,0},{53913,18011},{54045,17973},{54044,0},{54048,15546},{54053,0},{54054,17993},{54068,0},{53664,18023},{54183,17987},{54077,0},{53532,18026},{53688,18026},{53527,18025},{52888,18028},{54081,12108},{54092,0},{54121,17910},{54099,18032},{54107,0},{54110,0},{54111,17906},{51450,18038},{50485,18039},{54122,0},{50730,18039},{54125,0},{54134,0},{54140,0},{54021,18049},{54138,18049},{54152,0},{54155,0},{46629,18052},{54162,17335},{54170,0},{53922,18058},{54112,17852},{54179,0},{53919,18058},{54143,0},{53034,18060},{52699,18063},{52669,18096},{54072,18062},{54191,0},{54201,18065},{54200,0},{54194,0},{54212,0},{54209,0},{54205,12237},{54204,12237},{53688,18065},{54213,17899},{54218,0},{53991,18074},{54230,0},{54233,0},{54236,0},{53730,18079},{54242,0},{54235,17170},{54244,17518},{52554,18081},{54246,17961},{54144,18083},{54257,0},{54254,0},{54266,0},{53793,18087},{52285,18089},{54275,0},{54282,18015},{54278,0},{54352,18002},{54299,0},{53064,18100},{54305,0},{54087,18102},{48223,18099},{49252,18105},{54318,18104},{54326,0},{54309,18032},{54323,0},{53980,18109},{49464,18105},{50158,18110},{54219,18103},{54293,0},{54335,0},{51711,18113},{54296,0},{54342,17170},{54347,0},{54353,0},{54359,0},{52698,18100},{54362,0},{54365,0},{43606,18097},{54369,17529},{50511,18110},{54366,18086},{53890,18121},{54377,0},{54039,18124},{54379,15082},{54381,18093},{52878,18100},{54378,15082},{44533,18098},{54444,14844},{52581,18152},{48435,18131},{54398,0},{54402,18133},{54410,0},{54407,0},{54413,0},{54419,0},{54414,17900},{54428,0},{48666,18135},{54434,0},{54439,18075},{54438,18075},{52153,18147},{54449,0},{53745,18150},{54453,18043},{53760,18130},{54461,0},{54027,18154},{54431,0},{54018,18155},{54476,0},{54159,18154},{54477,18157},{54443,0},{54481,16841},{54486,18090},{54480,16841},{54372,18161},{54497,0},{54494,0},{54500,0},{54392,0},{54435,14535},{54470,0},{54503,0},{54219,18140},{54614,0},{54506,0},{54568,17874},{53946,18171},{54512,0},{53817,18171},{54621,18103},{54518,0},{48454,18174},{54525,18140},{53956,18177},{54409,18172},{54529,18027},{53958,18176},{54539,0},{54411,18180},{54507,17730},{54589,17340},{54228,18181},{54548,0},{54551,0},{54348,18184},{54557,0},{54127,18185},{54564,17654},{54509,0},{54569,0},{54426,18190},{54575,0},{52152,18195},{54581,0},{54584,0},{54588,17340},{53848,17901},{54723,18189},{53848,18242},{54593,0},{54599,0},{54596,0},{54560,0},{53199,18200},{54489,18201},{53311,18194},{54627,18208},{54700,17818},{54635,0},{48237,18212},{54641,0},{54644,0},{54519,18215},{54649,17045},{54653,0},{54662,0},{54658,12113},{54654,12112},{54665,0},{54657,12113},{54648,17045},{54671,0},{54655,12112},{52702,18248},{54674,0},{54752,0},{54680,0},{54355,18229},{54689,0},{54695,0},{54126,18230},{52663,18232},{54645,18190},{54624,18156},{53622,18234},{53454,18233},{54707,0},{54546,18228},{54708,18055},{53310,18239},{54678,18228},{54713,0},{54171,18238},{54722,0},{54735,18244},{54731,0},{54489,18238},{41304,18210},{54384,18238},{54749,0},{54806,0},{54765,17786},{53967,18253},{54764,0},{54773,0},{54801,18256},{54788,0},{54797,0},{54789,18033},{54794,0},{54798,18140},{54807,18129},{54818,0},{54829,15542},{54813,18227},{54827,0},{50494,18274},{54354,18273},{50745,18274},{54830,0},{54839,0},{54831,18173},{54836,0},{54842,0},{54576,18281},{54755,0},{54848,0},{52396,18283},{54863,0},{54805,15895},{54857,0},{54854,0},{54738,18288},{54766,17838},{54873,18128},{54867,18290},{54878,0},{54881,0},{54785,0},
{54801,18259},{54390,18307},{54802,18305},{49062,18298},{54890,0},{54893,0},{55002,18256},{54900,18259},{54895,16354},{54897,18178},{54666,18302},{54319,18303},{54924,18208},{54918,18181},{54558,18307},{54938,0},{54135,18310},{54935,0},{54941,0},{54926,0},{54945,17926},{54950,0},{54942,15542},{54934,11763},{54963,18286},{54967,16929},{54974,0},{53313,18326},{54983,0},{54992,0},{54986,0},{54985,16258},{54989,0},{54885,15895},{54492,18332},{54969,18019},{54999,11939},{54966,16929},{54912,18301},{55103,0},{55041,18228},{53761,18361},{54951,18353},{55014,17837},{55013,0},{53694,18339},{55022,0},{54430,18343},{55028,0},{55025,0},{55037,0},{49467,18342},{55034,0},{55010,0},{51591,18359},{55085,0},{55046,0},{35289,18351},{54142,18350},{55062,17930},{54957,18355},{55070,0},{55073,0},{55105,18163},{55079,0},{55052,0},{55108,18014},{55074,18325},{55092,16258},{55097,0},{55098,18202},{55089,18331},{55115,0},{55112,0},{54753,18395},{55212,18294},{53524,18377},{53977,18379},{55139,0},{49254,18378},{55140,18301},{55149,18301},{49264,18382},{55145,0},{55157,0},{55122,17665},{55217,0},{55116,18380},{54921,18389},{55170,18349},{55175,0},{55178,0},{55130,0},{53760,18389},{55128,18320},{55181,0},{55184,0},{54972,18395},{55193,0},{51070,18398},{54285,18399},{51306,18392},{55202,0},{55205,0},{55200,14531},{36501,18381},{55166,0},{55127,0},{55208,0},{55228,18167},{55241,0},{55233,16795},{55231,16487},{54093,18412},{55232,0},{55234,16795},{55244,0},{55249,17304},{54784,18415},{35821,18417},{55248,17304},{55265,0},{55300,18327},{55266,18187},{51007,18425},{55056,18424},{55281,18130},{55278,18395},{54969,18429},{55290,18396},{55286,0},{55224,18373},{55188,18430},{52995,18437},{55299,18362},{55304,0},{55307,0},{55296,15353},{55308,14842},{55229,0},{55291,18396},{55316,0},{55218,18440},{55319,0},{55283,0},{55298,0},{55406,0},{55407,18470},{54750,18476},{55329,15808},{55419,18206},{55337,0},{55343,0},{49917,18444},{55340,0},{55333,16639},{54424,18449},{55344,16487},{54423,18449},{54783,18450},{55354,18344},{55358,0},{55364,0},{55353,18386},{55430,0},{55373,0},{55375,18459},{55385,0},{55382,0},{55388,0},{55391,0},{55379,0},{55293,18464},{55418,0},{55403,0},{55386,14530},{55415,0},{55370,0},{55331,0},{55359,18407},{55437,15560},{55454,0},{55448,0},{51141,18490},{55458,18485},{55463,0},{55469,0},{55478,0},{55475,0},{50394,18489},{51142,18490},{55481,0},{55483,18384},{55254,18496},{55484,0},{55493,0},{54810,18498},{55529,0},{55445,0},{55536,15973},{55365,18513},{55269,18499},{55502,0},{55495,18270},{55128,18484},{55503,18360},{55506,18247},{55451,0},{55374,18505},{55509,14840},{55425,18510},{55524,17722},{54676,18481},{54627,18515},{55619,0},{55605,18318},{55548,18441},{55640,0},{55542,18541},{50161,18520},{54775,18518},{55553,0},{50163,18519},{55571,0},{55556,0},{55575,18304},{55580,0},{55583,0},{55584,18384},{55604,0},{55607,0},{53634,18536},{55592,0},{55574,0},{55224,18515},{55616,0},{55395,18515},{55398,18536},{54675,18532},{55632,18541},{55628,0},{55404,18537},{55631,0},{55422,18536},{54753,18515},{55260,18531},{55601,0},{55643,0},{55521,18576},{55739,0},{54469,18547},{55736,0},{55731,18551},{55663,18260},{55563,18555},{55659,17132},{55670,0},{55664,0},{54774,18558},{51403,18556},{55360,18559},{55660,17132},{55688,0},{55005,18550},{55431,18563},{55440,18566},{54756,18564},{55697,0},{55706,0},{55649,0},{55518,18569},{55715,0},{55712,0},{55644,18373},{55727,0},{55718,0},{55658,0},{55743,18205},{55722,18605},{55740,18610},{55786,18527},{55754,0},{55769,0},{55763,0},{55766,0},{51402,18590},{55773,18260},{55778,0},{55781,0},{55784,0},{55764,18587},{55795,18474},{55785,18561},{55587,18596},{55823,0},{55209,18606},{55796,0},{55797,18456},{55802,0},{55824,18566},{55617,18602},{55752,16190},{55809,18419},{55814,0},{55128,18585},{55746,18583},{55835,0},{55919,0},{55851,18618},{55671,18616},{55859,0},{55862,0},{55874,0},{55844,0},{55876,17794},{55880,0},{55883,0},{55843,18336},{55887,18628},{55877,0},{55758,18630},{55838,0},{55916,0},{55895,0},{55731,18630},
{55896,18318},{55422,18630},{55904,0},{55907,0},{55910,0},{55845,16198},{55038,18640},{55958,0},{51672,18644},{55931,0},{55780,18643},{55928,0},{55863,18645},{55941,18387},{55946,0},{55953,18650},{55951,18651},{55791,18657},{55964,0},{55994,0},{55976,0},{55982,0},{55983,18373},{55989,18545},{55965,18551},{55959,17794},{55911,18661},{55719,18641},{55997,0},{56055,16723},{55326,18666},{55866,18668},{56007,18495},{52504,18667},{56003,0},{56015,0},{56013,18526},{56018,0},{56008,18495},{56054,0},{56060,0},{56030,0},{55836,18679},{56040,18504},{56043,18365},{56028,18419},{56051,0},{56057,0},{55968,18687},{56097,18678},{53544,18698},{56069,0},{56076,18623},{52713,18693},{56075,0},{56072,0},{55680,18694},{56077,18623},{56087,0},{55947,18696},{56115,18609},{56100,18549},{56066,0},{56108,0},{55339,18689},{55654,18701},{55501,18702},{56111,0},{56118,16852},{56123,0},{56173,17948},{56129,0},{56130,18488},{56135,0},{56138,0},{56142,18713},{56147,0},{56092,18718},{56183,0},{56157,18677},{56178,18666},{56162,0},{53634,18722},{56156,0},{56171,0},{55938,18717},{56174,0},{56121,16394},{56169,17267},{56176,17878},{56124,18613},{49185,18728},{55797,18738},{56220,18347},{56149,18734},{56190,18748},{56191,18748},{56195,0},{56204,0},{56199,18732},{56209,18674},{56219,0},{56249,0},{56217,17020},{56216,0},{55804,18741},{56210,0},{56091,18742},{52041,18743},{56235,17948},{56240,0},{56189,0},{56243,0},{56252,0},{56255,0},{56264,0},{53925,18764},{56268,18522},{56148,18757},{55945,18758},{56276,0},{56279,0},{56290,18456},{56261,0},{55986,18769},{56288,0},{55533,18763},{56022,18765},{56025,18765},{56300,0},{56303,0},{56306,0},{56253,18549},{51156,18760},{56211,18772},{56188,18775},{56375,0},{56330,0},{56019,18779},{56331,18778},{56333,0},{56370,18034},{52507,18781},{56319,18676},{56378,0},{54756,18773},{56357,0},{56345,0},{55611,18785},{56232,18787},{56360,0},{56361,18715},{56328,18567},{56112,18773},{56346,18778},{56327,0},{56163,18784},{56349,18761},{56310,18814},{56379,18803},{56450,0},{55572,18796},{56396,0},{56393,0},{56404,18800},{56439,18755},{56256,18795},{56408,0},{56412,18676},{56415,18480},{56423,0},{52506,18806},{56435,0},{56427,18788},{56432,0},{56438,0},{56405,0},{56402,0},{56447,0},{55797,18805},{56463,18822},{56454,18819},{56502,17827},{56462,0},{56046,18834},{56409,18837},{56451,18823},{56477,0},{55605,18826},{56483,0},{56516,0},{55612,18828},{56382,18823},{56492,0},{55899,18829},{56453,0},{56496,18833},{56367,18831},{56505,18836},{55647,18826},{56472,18794},{56573,0},{56537,0},{56522,0},{56576,0},{56232,18856},{56568,18808},{56526,18670},{56531,0},{56555,0},{56534,0},{54927,18846},{53176,18843},{54757,18847},{55977,18848},{54390,18849},{56552,0},{52986,18852},{56551,17663},{55126,18853},{56547,18550},{56523,18682},{56519,0},{56313,18862},{56643,18755},{56600,0},{56583,18860},{56632,18876},{56580,18868},{35302,18871},{54918,18863},{33964,18870},{54550,18870},{56613,11767},{56618,0},{54277,18873},{56622,18550},{56625,17663},{56617,12276},{56636,0},{56633,0},{56630,0},{56601,17744},{56642,0},{55122,18863},{53178,18878},{56639,0},{56646,18869},{56697,18900},{56651,0},{56652,18646},{56661,18861},{56669,0},{56671,18228},{56673,11321},{56678,0},{56679,12158},{56657,0},{56684,0},{56553,18886},{56687,0},{56424,18884},{35382,18894},{55434,18905},{53001,18897},{56690,0},{53934,18902},{53179,18898},{56705,0},{56711,0},{56714,0},{56720,0},{53019,18924},{56729,0},{56777,0},{56732,0},{56733,18112},{56738,0},{53484,18929},{35383,18917},{56741,0},{36012,18914},{56747,0},{56724,18774},{56658,18916},{56723,0},{55620,18919},{56765,0},{53649,18927},{56762,0},{56780,0},{55203,18928},{54610,18922},{56595,18930},{56813,0},{56796,18735},{56592,18930},{56843,0},{36513,18946},{54544,18935},{56854,17546},{53646,18933},{36813,18941},{56779,18931},{35292,18939},{56822,0},{56828,0},{52638,18951},{56831,0},{56816,0},{54817,18945},{56658,18934},{56795,0},{52996,18950},{56565,18948},{56858,0},{56918,0},{56721,18962},{52903,18960},{56847,18971},{56864,0},{56867,0},
{56878,18937},{56876,0},{56882,0},{56891,0},{56859,18959},{56799,18956},{56382,18965},{56885,0},{56815,18961},{56901,18944},{56907,17479},{56900,0},{56909,0},{56910,18962},{56873,0},{56908,17479},{56919,18974},{52905,18992},{56979,17535},{56959,12028},{56937,18717},{32671,18982},{32670,18982},{56949,17634},{56930,0},{56945,0},{56936,0},{33082,18975},{56932,10634},{56957,0},{56963,0},{56933,0},{36084,18986},{56904,18988},{56769,18989},{56975,0},{33081,18975},{56993,0},{57001,18940},{56996,0},{57005,0},{56260,18997},{57006,18995},{56890,19008},{57007,18957},{57011,0},{57044,0},{57014,0},{57053,0},{56952,19008},{57000,18964},{57021,19005},{57048,17535},{57029,0},{57041,0},{57036,10634},{56999,0},{56472,19018},{57077,0},{57045,19037},{57110,0},{57061,18996},{56988,19020},{56346,19018},{56439,19018},{56940,19021},{57066,18780},{57071,0},{57100,18897},{33966,19026},{53025,19028},{57092,0},{57074,0},{57095,0},{36516,19035},{57059,0},{56577,19018},{57098,0},{35109,19029},{57101,0},{57116,0},{57117,18989},{57126,19006},{56955,19042},{57131,0},{57137,0},{57134,0},{56026,19046},{57149,0},{57179,0},{57152,0},{57122,0},{52266,19051},{57057,19054},{57028,19055},{57174,19006},{57173,0},{57155,0},{57167,0},{33087,19041},{57180,18897},{56737,19050},{56826,19061},{57245,0},{57117,19082},{57194,0},{57201,18799},{56517,19066},{57206,0},{57211,18888},{57102,19079},{57242,0},{57069,19082},{56808,19071},{57221,0},{32689,19073},{57210,18888},{57219,10896},{57224,0},{57230,0},{57231,18854},{57081,19072},{57207,18989},{57235,11477},{57249,18885},{57308,0},{57159,19090},{57255,19056},{57313,17279},{56335,19087},{56266,19088},{57250,18794},{57141,19089},{57267,18780},{57309,19085},{57258,19065},{57275,0},{57281,0},{57284,0},{57285,11327},{57090,19090},{57293,0},{57296,0},{57251,0},{57286,11327},{57225,19099},{57168,19090},{57303,19011},{57317,0},{32263,19109},{57321,19085},{57327,10754},{57335,0},{57332,0},{56470,19128},{57338,0},{57067,19114},{57331,19113},{57117,19106},{57350,0},{57255,19106},{57357,19118},{57362,0},{57365,0},{34440,19123},{57323,0},{56754,19124},{56553,19124},{57380,0},{57381,19053},{57398,0},{56982,19129},{57277,19130},{57402,19133},{57407,0},{57416,0},{57411,19133},{57419,0},{57207,19140},{57425,0},{57339,19134},{57413,0},{57432,19122},{57376,19145},{57437,0},{57447,19117},{57443,0},{57276,19130},{57446,0},{35892,19143},{57458,0},{57462,19113},{57507,18885},{57471,19156},{56970,19167},{57479,0},{57426,19160},{57494,0},{33075,19151},{57465,19136},{57334,19161},{57468,19137},{57415,19162},{57512,0},{57489,19054},{57456,19006},{57375,19165},{57461,0},{57500,0},{57506,0},{57474,19048},{57491,0},{57096,19171},{57555,19117},{57459,19189},{57516,19136},{56659,19173},{57517,19112},{36378,19184},{57553,12126},{56887,19175},{57544,19182},{57168,19192},{57555,19146},{57524,0},{57551,0},{57560,0},{57563,0},{57539,0},{57289,19179},{57581,0},{57584,0},{57534,19200},{57406,19196},{57588,19155},{57596,0},{57632,0},{57605,0},{57593,0},{57580,19006},{57608,0},{57602,0},{57611,0},{57614,0},{57288,19209},{57599,0},{57621,19010},{57607,19206},{57321,19195},{57189,19211},{57644,0},{57592,19215},{57522,19216},{57681,19100},{57657,19172},{57540,19219},{57516,19218},{57662,0},{57663,19183},{57651,19178},{57666,12238},{57378,19224},{57669,19054},{57675,19178},{57677,0},{57585,19212},{57666,19226},{57692,0},{57207,19230},{57698,0},{57699,19231},{57705,19180},{57708,19237},{57127,19234},{57711,19238},{57717,19216},{57701,0},{57719,0},{57725,0},{57734,0},{57740,0},{57743,0},{57348,19248},{57749,0},{57753,19250},{57624,19260},{57759,19238},{57764,0},{57604,19252},{57765,19236},{57768,19231},{57761,0},{57770,0},{57755,0},{57774,19205},{36528,19259},{57783,19190},{57791,0},{57830,0},{57798,12352},{57792,19084},{57148,19263},{57810,19268},{57805,19267},{57809,0},{57813,19250},{57817,19220},{57815,0},{57797,0},{57771,19273},{57595,19275},{57309,19278},{57849,19282},{57345,19278},{57795,19284},{57855,19238},{57847,19283},{57795,19285},{57858,19285},{57860,0},
{57864,19274},{57854,0},{57643,19290},{57842,0},{57837,12352},{57843,19176},{57879,18989},{57876,19039},{57186,19293},{57885,19296},{57917,0},{57884,0},{57862,19298},{57894,19287},{57897,19284},{57867,19300},{57878,0},{57697,19301},{56968,19306},{57921,19107},{57926,0},{57921,19085},{57531,19312},{57393,19307},{57958,19293},{57930,19297},{57912,19311},{57892,19310},{57897,19313},{57555,19312},{57944,0},{57945,19313},{57940,19299},{57808,19316},{35010,19311},{57306,19317},{57960,19108},{57573,19321},{57073,19323},{57971,0},{57977,0},{57076,19336},{57945,19328},{57989,0},{57990,19177},{57996,19328},{57997,19328},{57983,0},{57247,19338},{57687,19340},{58018,19322},{58023,19297},{57159,19340},{57966,19339},{57939,19341},{58027,19307},{57450,19340},{57270,19340},{57993,19344},{58037,0},{58024,19326},{58048,19309},{58056,19310},{58061,0},{58064,0},{58029,19355},{58073,0},{58074,19053},{58039,19361},{57907,19359},{57726,19360},{58053,19090},{58052,0},{58088,0},{58089,19356},{58115,0},{58092,19052},{58069,19363},{57729,19367},{58106,0},{57831,19373},{57226,19379},{58122,19356},{58145,0},{58131,19365},{58087,19375},{58098,19378},{58135,19366},{57351,19376},{57489,19380},{58149,19363},{58147,19337},{57565,19389},{58148,0},{57720,19384},{58160,0},{57271,19385},{58152,19217},{57058,19390},{58153,19217},{58173,19372},{58178,0},{58200,19393},{58198,19324},{58187,0},{58173,19351},{58054,19391},{58161,19396},{58196,0},{58189,19387},{57972,19394},{58233,19399},{58203,19404},{58215,19226},{58192,19406},{58224,19407},{58188,19407},{58213,19401},{57798,19405},{58225,19407},{58227,19245},{58212,19402},{58203,19422},{58209,19412},{58177,19413},{58238,0},{57493,19421},{58236,19213},{58244,0},{58242,19266},{58247,0},{58251,19387},{58236,19393},{57601,19419},{57840,19414},{58242,19280},{58307,0},{58272,19427},{58277,0},{58209,19423},{58274,0},{58201,19433},{58180,19426},{58284,19403},{58248,19431},{58292,0},{58293,19418},{58294,19416},{58287,19311},{58310,0},{58330,19423},{58303,19438},{58341,19432},{57639,19440},{58349,0},{58324,19427},{58338,19262},{58255,19445},{58005,19437},{58350,19311},{58331,0},{58355,0},{58269,19461},{35011,19460},{58379,0},{58365,11877},{36841,19457},{58370,0},{58364,0},{58360,19439},{58369,19440},{58359,19439},{58358,0},{58386,19402},{58327,19463},{58403,0},{58415,0},{58398,19348},{58320,19468},{58402,19444},{58387,19472},{58395,11877},{58422,19453},{58419,19476},{58425,19477},{58332,19476},{58362,19476},{58357,19479},{35010,19476},{35431,19482},{58436,0},{58455,19483},{58458,19464},{58459,19464},{37053,19491},{58466,0},{58362,19489},{58449,19475},{58450,19475},{58483,19487},{58452,19492},{58471,19493},{33084,19493},{58476,19496},{58493,0},{58477,19496},{58495,19477},{58487,0},{58503,19500},{33084,19500},{58514,0},{58508,0},{33069,19502},{58491,19502},{58504,19500},{58511,0},{36087,19508},{30189,19500},{58506,9619},{33073,19517},{58557,19509},{58503,19510},{58527,19513},{58529,0},{58533,19469},{58554,19501},{58544,0},{58581,19516},{58560,19521},{28662,19522},{24816,19522},{58571,0},{58572,19505},{30036,19523},{58576,19480},{29280,19520},{58578,19513},{29281,19529},{58561,19528},{58608,19521},{58537,19533},{58597,9819},{29878,19534},{58613,0},{58616,0},{58619,0},{58628,0},{28669,19540},{58633,10255},{31299,19544},{58631,0},{58652,0},{58566,19546},{58593,19546},{58647,4014},{58567,19546},{58646,0},{58590,19546},{26071,19558},{58659,4580},{58660,4382},{27640,19554},{58656,4014},{93,19557},{58691,0},{58644,19559},{22888,19560},{58685,0},{58641,19561},{58688,0},{58679,0},{58704,10588},{58700,0},{58703,0},{58707,19551},{58701,19570},{93,19565},{58713,19545},{58733,0},{58718,0},{58725,19576},{58734,19564},{58665,19573},{58626,19579},{588,19579},{58629,19579},{58751,0},{58614,19579},{58722,19579},{58686,19579},{58737,19548},{58737,19568},{58737,19559},{58665,19580},{58746,19581},{58754,0},{58787,0},{58781,0},{58775,0},{58766,0},{58769,0},{58778,0},{58772,0},{58784,0},{58760,0},{58815,195},{58812,19587},{58755,19597},{58791,19579},
{58812,313},{58830,19587},{58823,0},{58829,0},{58826,0},{58835,0},{58836,19579},{1767,19614},{540,19613},{807,19615},{58845,195},{58848,19597},{58818,19615},{58857,19601},{58857,19603},{58857,19602},{58857,19600},{58857,19599},{58857,19598},{58857,19596},{58863,19470},{58863,19481},{58863,19458},{58863,19506},{58863,19499},{58863,19507},{58863,19369},{58863,19388},{58863,19448},{58863,19410},{58863,19420},{58863,19541},{58863,19535},{58863,19515},{58862,0},{58863,19228},{58863,19291},{58863,19333},{58863,19334},{58863,19370},{58863,19347},{58863,19556},{58863,19303},{58863,19318},{58868,0},{58886,0},{58874,0},{58883,0},{58880,0},{58871,0},{58877,0},{58889,0},{1,0},{58987,19645},{58987,19646},{58987,19652},{58987,19653},{58987,19648},{58987,19647},{58987,19649},{58987,19650},{58987,19636},{58987,19637},{58987,19639},{58987,19640},{58987,19638},{58987,19632},{58987,19630},{58987,19631},{58987,19634},{58987,19635},{58987,19633},{58987,19642},{58987,19643},{58987,19641},{58987,19651},{58987,19660},{58987,19659},{58987,19656},{58987,19655},{58987,19658},{58987,19657},{58987,19661},{58987,19654}
