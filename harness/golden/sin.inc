// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{77,0},{83,0},{80,0},{71,0},{15,23},{21,23},{86,0},{90,29},{18,23},{12,23},{89,0},{24,23},{57,23},{13,5},{135,23},{13,46},{67,21},{144,23},{67,49},{69,20},{68,0},{19,7},{159,23},{19,54},{58,20},{168,23},{58,57},{61,19},{177,23},{61,60},{61,21},{186,23},{61,63},{59,0},{65,0},{14,0},{11,0},{8,0},{20,0},{23,0},{50,0},{53,0},{56,0},{5,0},{2,0},{17,0},{29,0},{26,0},{38,0},{62,0},{47,0},{44,0},{41,0},{32,0},{35,0},{74,0},{92,0},{81,28},{72,23},{78,25},{97,26},{100,28},{103,27},{272,0},{106,24},{18,35},{24,35},{113,0},{110,0},{115,29},{21,35},{119,0},{15,35},{125,0},{122,0},{127,30},{131,0},{63,35},{69,52},{152,0},{155,0},{185,0},{156,66},{210,71},{201,68},{228,77},{207,75},{216,73},{222,65},{255,86},{237,78},{240,84},{249,82},{96,34},{126,88},{99,38},{105,87},{267,91},{117,90},{270,92},{279,94},{289,23},{286,25},{69,96},{281,0},{290,0},{296,0},{293,0},{288,35},{308,0},{314,0},{387,130},{141,96},{329,0},{332,0},{106,111},{441,24},{106,148},{174,96},{288,64},{342,81},{357,120},{345,116},{354,117},{369,124},{366,121},{384,125},{381,126},{284,0},{75,95},{395,0},{401,0},{277,161},{405,134},{81,136},{414,99},{411,35},{411,23},{417,100},{406,134},{9,140},{12,135},{315,142},{0,140},{423,106},{3,135},{404,0},{0,135},{426,106},{6,135},{3,140},{324,141},{420,11},{36,135},{6,140},{39,135},{9,135},{36,140},{33,135},{30,140},{30,135},{434,0},{45,135},{48,135},{45,140},{420,9},{405,9},{42,140},{420,8},{39,140},{42,135},{48,140},{51,135},{57,135},{54,140},{435,112},{51,140},{411,55},{54,135},{452,0},{449,0},{166,47},{639,137},{166,214},{420,21},{411,58},{455,0},{459,152},{462,155},{468,157},{474,159},{431,0},{408,160},{78,162},{491,0},{489,23},{495,164},{280,224},{687,27},{280,230},{489,35},{496,164},{3,168},{6,169},{503,0},{512,0},{515,0},{518,0},{521,0},{530,0},{533,0},{527,0},{524,0},{0,165},{12,169},{0,169},{542,0},{9,168},{6,168},{9,169},{545,0},{30,169},{548,0},{27,168},{0,168},{3,169},{30,168},{27,169},{24,168},{33,169},{554,0},{557,0},{575,0},{572,0},{569,0},{51,168},{551,0},{563,0},{560,0},{566,0},{39,168},{54,169},{42,169},{39,169},{36,168},{45,168},{48,169},{599,0},{578,0},{593,0},{584,0},{33,168},{42,168},{36,169},{45,169},{51,169},{48,168},{602,0},{587,0},{596,0},{590,0},{620,0},{611,0},{614,0},{331,207},{888,163},{331,297},{632,0},{494,0},{629,0},{605,0},{608,0},{534,164},{626,0},{489,146},{617,0},{447,171},{334,113},{927,163},{334,310},{57,169},{54,168},{650,0},{653,0},{402,164},{660,219},{677,0},{676,94},{678,35},{69,226},{681,9},{696,10},{498,225},{686,0},{696,14},{681,13},{695,0},{696,2},{696,13},{681,12},{704,0},{707,0},{709,237},{1002,163},{709,335},{701,0},{696,17},{681,16},{717,240},{729,242},{724,244},{1026,163},{724,343},{681,17},{696,18},{749,0},{744,96},{696,19},{681,18},{740,0},{743,0},{132,226},{696,11},{755,0},{752,0},{681,10},{696,15},{681,14},{696,12},{681,15},{696,16},{681,11},{732,226},{696,3},{681,8},{696,9},{767,0},{489,241},{761,0},{711,226},{696,4},{776,0},{785,0},{782,0},{489,236},{773,0},{770,0},{779,0},{810,271},{792,265},{827,0},{830,0},{411,268},{821,0},{798,269},{786,263},{818,0},{824,0},{803,0},{866,0},{854,0},{860,0},{837,282},{876,290},{851,0},{857,0},{863,0},{867,291},{843,280},{833,0},{836,0},{805,248},{1209,137},{805,404},{882,295},{879,307},{915,299},{896,0},{906,303},{935,0},{926,0},{941,0},{938,0},{945,314},{696,1},{951,221},{935,0},{396,318},{959,0},{963,15},{963,11},{960,12},{960,16},{963,3},{960,4},{960,15},{963,14},{974,0},{971,0},{968,0},{983,0},{980,0},{992,0},{995,0},{963,18},{989,0},{495,319},{960,19},{1016,0},{1019,0},{1011,238},{1010,0},{999,332},{948,319},{1025,0},{963,20},{960,21},{1040,0},{1037,0},{963,12},{960,13},{756,352},{960,10},{963,9},{963,16},{960,17},{1061,0},{1046,0},{960,20},{1053,347},{960,9},{963,17},{960,18},{960,14},{963,13},{1049,0},{1052,0},{963,8},{963,10},{960,11},{1076,0},{1064,0},{1073,0},{1079,0},{1082,0},{1091,0},{1065,356},{1088,0},{1085,0},{1110,368},{1100,0},{1137,375},{1103,0},{1131,378},{1115,0},{1118,0},{1130,0},{1122,373},{1097,0},{513,337},{1094,0},
{1109,0},{1155,390},{1167,388},{1146,383},{1154,0},{1179,392},{1206,401},{1191,396},{1255,227},{1503,171},{1255,502},{1194,391},{1197,301},{714,409},{1242,413},{1247,0},{960,3},{963,2},{1250,0},{1034,0},{1251,222},{1316,0},{1259,0},{1280,0},{1265,0},{1260,325},{1277,0},{1268,0},{1271,0},{1274,0},{1296,433},{1286,0},{1283,0},{1293,430},{1305,434},{1319,0},{1310,0},{1323,440},{1332,340},{1347,450},{1343,0},{1346,0},{1382,0},{1409,0},{1388,0},{1404,467},{1358,0},{1355,0},{1373,0},{1370,0},{1359,254},{1400,0},{1397,0},{1364,0},{1383,459},{1367,0},{1394,0},{1391,0},{1422,473},{1415,0},{1412,0},{1425,472},{1431,476},{1434,193},{1440,479},{1458,487},{1467,386},{1260,164},{1455,380},{1476,490},{1443,387},{1449,381},{1446,484},{1485,395},{1488,394},{1200,497},{1482,211},{1497,408},{1512,407},{1500,410},{1517,0},{1494,406},{1521,218},{1532,0},{1529,0},{1541,0},{84,515},{984,515},{1554,103},{1560,521},{1557,516},{1551,522},{699,514},{1572,525},{1587,528},{1595,0},{1596,458},{1602,533},{1556,0},{1620,539},{1644,546},{1631,0},{1626,541},{1643,0},{1608,537},{1632,545},{1650,549},{1670,0},{1659,552},{1691,0},{1685,0},{1679,0},{1688,0},{1694,0},{1676,0},{1709,0},{1700,0},{1703,0},{1706,0},{1715,0},{1724,0},{1712,0},{1718,0},{1727,0},{1728,577},{1734,143},{669,578},{1739,0},{304,579},{1740,429},{1746,526},{1749,437},{1752,523},{1758,527},{1761,530},{1765,179},{1884,178},{1765,629},{1770,538},{1767,535},{1773,337},{1785,554},{1779,488},{1789,594},{1908,178},{1789,637},{1776,551},{1797,557},{1794,555},{1791,493},{1803,565},{1801,446},{1932,178},{1801,645},{1819,215},{1941,178},{1819,648},{1216,588},{1950,178},{1216,651},{1807,405},{1959,178},{1807,654},{646,603},{1968,178},{646,657},{1851,511},{1856,0},{303,620},{1865,0},{1866,581},{1868,0},{1876,623},{1995,238},{1876,666},{1330,624},{2004,238},{1330,669},{1880,0},{1883,0},{1898,0},{1896,238},{1899,238},{1895,0},{1925,0},{1928,0},{1922,0},{1907,0},{1871,0},{1919,0},{1904,0},{1877,0},{1914,164},{1931,0},{1899,503},{1938,164},{1879,643},{2067,238},{1879,690},{1537,659},{2076,238},{1537,693},{1899,506},{1985,0},{1755,662},{1992,621},{1986,514},{1326,663},{2002,670},{2103,337},{2002,702},{1473,663},{2024,0},{919,676},{2118,238},{919,707},{637,673},{2127,238},{637,710},{2025,306},{1228,672},{2139,238},{1228,714},{2025,212},{1234,679},{2151,238},{1234,718},{2074,694},{2160,337},{2074,721},{2025,227},{87,696},{2091,663},{2100,699},{1989,699},{2111,0},{2112,699},{2115,337},{1899,708},{1011,711},{1899,715},{2168,0},{322,724},{2175,238},{2175,171},{2178,344},{2181,728},{2178,605},{2178,677},{2187,678},{2175,711},{2187,679},{2187,673},{2187,671},{2178,684},{2178,671},{2187,672},{2187,684},{2178,607},{2187,680},{2187,683},{2175,708},{2178,681},{2178,682},{2187,682},{2187,677},{2178,680},{2178,678},{2190,727},{2178,336},{1518,725},{2178,683},{2181,337},{2187,676},{2175,503},{2178,686},{2175,715},{2187,681},{2178,306},{2178,212},{2196,591},{2181,734},{2187,686},{2175,719},{2330,0},{2207,0},{2208,671},{2216,0},{2211,672},{2219,0},{2097,735},{2208,677},{2208,682},{2211,676},{2255,0},{2258,0},{2264,0},{2270,0},{2273,0},{2208,683},{2211,679},{2211,673},{2249,0},{2243,0},{2246,0},{2208,212},{2237,0},{2231,0},{2252,0},{2261,0},{2267,0},{2240,0},{2225,0},{2234,0},{2222,0},{2228,0},{2211,683},{2303,0},{2309,0},{2306,0},{2300,0},{2291,0},{2294,0},{2295,715},{2208,306},{2282,0},{2295,503},{2208,684},{681,736},{2283,412},{2276,0},{2295,506},{2279,0},{2288,0},{2312,0},{2295,719},{2295,708},{2315,0},{2318,0},{2327,0},{2324,0},{957,778},{2094,778},{2339,0},{2345,0},{2349,622},{2354,0},{2360,0},{2357,0},{2415,806},{2367,790},{2403,803},{2396,0},{2391,795},{2384,0},{2378,0},{2381,0},{2361,788},{2429,0},{2421,808},{2453,0},{2459,0},{2462,0},{2465,0},{2474,0},{2469,825},{2468,0},{2450,0},{2489,0},{2486,0},{2502,698},{2505,445},{2508,780},{1680,835},{2136,838},{2061,838},{2148,838},{2193,838},{2538,814},{1260,835},{2319,838},{2199,838},{2085,838},{2169,838},{2630,0},{2589,164},{2592,446},{2595,837},{900,863},{2589,134},
{2589,178},{912,863},{2592,604},{2592,603},{2598,134},{2592,594},{2055,863},{2592,611},{2603,0},{2592,608},{2064,863},{735,866},{2592,573},{2592,609},{2592,615},{2592,612},{2609,0},{2592,614},{2592,613},{2598,630},{2606,0},{2612,0},{2592,610},{2592,508},{2055,872},{2064,872},{2592,616},{2621,0},{420,864},{2592,137},{2598,658},{2627,0},{2624,0},{2634,630},{2634,245},{2639,0},{2499,915},{2742,832},{2649,300},{735,881},{2652,600},{2643,646},{2646,300},{2652,596},{2634,658},{2660,0},{2669,0},{2652,610},{2661,603},{2652,609},{2652,604},{2661,446},{2634,655},{2643,638},{2652,611},{2643,630},{2652,602},{2657,0},{2652,573},{2634,652},{2634,649},{2666,0},{2672,0},{2687,0},{2643,652},{2631,777},{2643,649},{2652,606},{2661,594},{2652,615},{2678,0},{2673,840},{2643,655},{2681,0},{2684,0},{2693,0},{2550,903},{2556,904},{2696,0},{2643,658},{2697,847},{2708,0},{2690,0},{2705,0},{2702,0},{495,878},{2717,0},{2720,0},{2652,613},{2652,614},{2723,0},{2726,0},{2729,0},{2730,782},{66,911},{2736,64},{2652,612},{2741,0},{2753,0},{2750,0},{2754,782},{2775,573},{2763,600},{2775,594},{2774,0},{2775,446},{2771,0},{2780,0},{2768,0},{2775,603},{2831,0},{2828,0},{2787,791},{2816,0},{2807,0},{2820,796},{2825,0},{2813,0},{2810,0},{2801,0},{2763,596},{2792,0},{2795,0},{2804,0},{2783,0},{2517,928},{2798,0},{2819,0},{2523,944},{2868,826},{2852,0},{2849,0},{2529,945},{2867,0},{2862,848},{2532,946},{2858,0},{2843,0},{2855,0},{2775,611},{2559,958},{2888,0},{2889,855},{2763,611},{2775,615},{2904,22},{2763,573},{2915,0},{2775,604},{2919,830},{2918,0},{2928,918},{2763,606},{2906,0},{2933,0},{2939,0},{2775,610},{2936,0},{2760,982},{2757,981},{2978,0},{2412,991},{2960,0},{2970,802},{2966,0},{2967,800},{2397,987},{2957,0},{2954,0},{3024,849},{2991,996},{2985,818},{3033,851},{2979,810},{3000,813},{2445,1001},{2844,1007},{3027,953},{2982,811},{3011,0},{3030,957},{3012,1005},{2535,999},{3068,0},{2580,1020},{2571,1016},{2901,1019},{3039,856},{2562,1014},{3036,827},{2586,1024},{3086,0},{3083,0},{3080,0},{3089,0},{3095,0},{3090,975},{3108,1037},{3107,0},{3119,0},{3123,880},{2949,1042},{3147,998},{3138,1045},{2526,1043},{3144,1047},{3132,812},{3153,1006},{3006,1050},{2613,1053},{2877,1052},{3189,965},{3180,964},{3177,858},{3162,1017},{3186,1021},{3174,1057},{3192,961},{2880,1055},{3207,861},{3210,969},{3216,1025},{2910,1074},{3225,1076},{3231,974},{3237,831},{3128,0},{3243,1040},{3240,1038},{3249,1084},{3261,1056},{3264,1018},{3267,1061},{3258,1015},{3270,859},{3195,1085},{3273,966},{3069,1099},{3294,1066},{3300,1071},{3285,1068},{3291,1096},{3282,1067},{3303,1093},{3309,1073},{3312,1096},{3318,1033},{3315,1032},{3321,1078},{3303,1084},{3312,1097},{3216,1084},{3314,0},{3251,0},{3254,0},{3305,0},{3281,0},{3290,0},{3293,0},{3278,0},{3330,1082},{3333,980},{3342,1116},{3357,1117},{3354,1092},{3345,1113},{3336,1126},{3369,1122},{3372,1112},{3363,1102},{3384,1097},{3381,1125},{3390,1129},{3393,1108},{3377,0},{3368,0},{3371,0},{3383,0},{3396,1093},{3288,1115},{3378,1112},{3378,1072},{3336,1054},{3378,1083},{3378,1104},{3342,1115},{3336,1097},{3288,1116},{3347,0},{3398,0},{3344,0},{3356,0},{3350,0},{3341,0},{3362,0},{3429,1144},{3375,1146},{3444,1145},{3441,1120},{3450,1152},{3447,1152},{3453,1167},{3459,1149},{3456,1122},{3467,0},{3470,0},{3440,0},{3458,0},{3483,1083},{3485,0},{3486,1133},{3498,1134},{3495,1164},{3501,1168},{3510,1169},{3536,0},{3543,1180},{3381,1179},{3549,1153},{3552,1182},{3575,0},{3554,0},{3576,1187},{3489,1193},{3540,1184},{3327,1187},{3587,0},{3584,0},{3516,1187},{3591,1196},{3411,1187},{3597,1200},{3447,1200},{3459,1199},{3597,1184},{3609,1187},{3618,1114},{3409,1205},{3620,0},{3276,1207},{3612,1187},{3626,0},{3627,1187},{3630,1187},{3638,0},{3418,1211},{3623,0},{3415,1213},{3651,1127},{3603,1214},{3606,1214},{3651,1154},{3555,1214},{3645,1186},{3653,0},{3406,1218},{3659,0},{3668,0},{3673,1034},{3514,1223},{3663,1187},{3421,1225},{3424,1226},{3687,1187},{3681,1187},{3666,1118},{3660,1228},{3692,0},{3686,0},{3704,0},{3707,0},{3708,1216},{3698,0},{3695,0},
{3701,0},{3711,1187},{3660,1238},{3520,1243},{3720,1187},{3717,1187},{3723,1242},{3690,1244},{3660,1245},{3684,1238},{3690,1245},{3690,1242},{3684,1244},{3684,1245},{3735,1242},{3714,1244},{3427,1246},{3723,1244},{3529,1247},{3732,1242},{3660,1242},{3684,1242},{3714,1245},{3660,1244},{3746,0},{3735,1244},{3714,1242},{3728,0},{3734,0},{3737,0},{3716,0},{3685,1250},{3661,1251},{3725,0},{3724,1250},{3126,1241},{3468,1233},{3759,1187},{3764,0},{3765,1187},{3771,1187},{3768,1187},{3756,1187},{3481,1258},{3779,0},{3780,1244},{3526,1262},{3523,1261},{3797,0},{3723,1260},{3780,1242},{3715,1264},{3800,0},{3803,0},{3824,0},{3789,1259},{3690,1260},{3818,0},{3714,1275},{3684,1273},{3690,1273},{3815,0},{3690,1275},{3807,1241},{3780,1238},{3660,1273},{3801,1241},{3795,1241},{3798,1267},{3816,1230},{3780,1245},{3684,1260},{3843,1187},{3684,1275},{3735,1275},{3732,1275},{3723,1275},{3714,1273},{3660,1275},{3840,1241},{3660,1260},{3795,1268},{3813,1230},{3723,1273},{3801,1260},{3735,1273},{3726,1275},{3732,1273},{3780,1275},{3726,1273},{3780,1273},{3821,0},{3827,0},{3781,1284},{3819,1275},{3733,1284},{3736,1285},{3715,1286},{3661,1287},{3866,0},{3869,0},{3875,0},{3873,1109},{3126,1290},{3879,1187},{3472,1298},{3885,1187},{3571,1294},{3565,1297},{3568,1299},{3475,1296},{3902,0},{3904,1263},{3690,1304},{3909,1245},{3908,0},{3927,1310},{3690,1303},{3926,0},{3916,1268},{3808,1306},{3923,0},{3660,1304},{3955,1317},{3938,0},{3733,1319},{3736,1313},{3660,1303},{3723,1303},{3969,1238},{3974,0},{3909,1244},{3960,1260},{3684,1303},{3684,1304},{3906,1303},{3909,1238},{3998,0},{3909,1242},{3723,1304},{3532,1329},{3996,1230},{4008,1303},{3780,1303},{3804,1304},{3714,1304},{3735,1304},{4011,1304},{4017,1273},{3909,1275},{3726,1304},{4037,0},{3909,1304},{3732,1304},{3909,1273},{3912,1275},{4035,1242},{3819,1349},{4044,1275},{3780,1304},{3820,1304},{3910,1349},{3911,0},{4052,0},{4055,0},{4058,0},{4061,0},{4064,0},{4044,1304},{3819,1304},{4067,0},{4071,1288},{4065,1356},{4080,1358},{3914,0},{4074,1109},{4085,0},{4094,0},{4103,0},{4088,0},{4097,0},{3478,1363},{4100,0},{4086,1366},{4092,1367},{4095,1368},{4109,0},{4095,1300},{4108,1270},{4117,1371},{3727,1370},{4129,1377},{4130,0},{3943,1374},{4121,0},{3934,1373},{3780,1378},{4139,0},{4150,1278},{4147,1390},{4142,0},{4141,1321},{4161,1301},{4160,0},{4169,0},{3841,1385},{4170,1382},{4176,1245},{3834,1383},{3723,1397},{4183,1395},{3690,1397},{3684,1397},{4122,1272},{4199,0},{4202,0},{3660,1397},{4214,0},{4211,0},{4185,1332},{3714,1397},{4220,0},{4223,0},{4225,1346},{4227,1245},{3735,1397},{3732,1397},{4041,1397},{4236,1242},{4235,0},{4193,0},{4247,0},{4244,0},{4239,1273},{3726,1397},{4233,1304},{4253,0},{4229,0},{4256,0},{3781,1419},{3780,1397},{4254,1420},{4242,1409},{3909,1397},{4238,0},{4236,1397},{3825,1397},{4266,1354},{4056,1424},{4062,1423},{4266,1424},{4280,0},{4281,1288},{3819,1397},{4281,1356},{4289,0},{4293,1397},{3912,1397},{4092,1435},{4316,0},{4311,1300},{4302,1367},{4308,1439},{4308,1366},{4311,1368},{4086,1439},{4302,1435},{4323,1440},{4332,1438},{3810,1443},{4326,1438},{4342,1316},{4339,1315},{4336,1375},{4345,1326},{4357,1249},{3747,1452},{3822,1451},{4363,1453},{4351,1277},{4347,1377},{4371,1238},{4352,0},{4375,1384},{4366,1279},{4340,0},{4376,0},{4346,0},{4369,1282},{4337,0},{4377,1460},{3846,1456},{3837,1455},{4391,0},{4394,0},{3948,1447},{4397,0},{4402,1342},{3909,1472},{4403,0},{4422,1378},{4430,0},{3825,1478},{4441,1410},{4445,0},{4042,1483},{4442,0},{4452,1244},{4459,1416},{4457,0},{4467,1488},{3913,1487},{4472,0},{4476,1260},{4485,1350},{4481,0},{4483,1414},{4490,0},{4485,1420},{4499,0},{4504,1500},{4506,1303},{4511,0},{4512,1353},{4496,0},{4275,1503},{4527,1289},{4517,0},{4523,0},{4535,0},{4544,0},{4545,1440},{4563,1516},{4551,1438},{4554,1519},{4554,1522},{4563,1438},{4551,1516},{4557,1515},{4554,1520},{4560,1523},{4569,1440},{4326,1516},{4566,1515},{4557,1523},{4323,1522},{4332,1516},{4554,1440},{4569,1522},{4323,1520},{4323,1519},{4580,0},{4560,1515},{4591,1325},{4585,1276},
{4581,1524},{4589,0},{4575,1524},{4588,1322},{4598,0},{4604,0},{4601,0},{4606,1388},{4613,0},{4595,0},{4609,1328},{4610,0},{3945,1542},{4638,1308},{4621,1330},{4636,1283},{4152,1543},{4624,1462},{3978,1544},{3975,1530},{4614,1260},{4617,1242},{4643,0},{4623,1462},{4646,0},{3828,1528},{4649,0},{4658,0},{4622,0},{4607,0},{3849,1545},{4663,1402},{4664,0},{4426,1555},{4026,1556},{4673,0},{4438,1559},{4683,1472},{4682,0},{4681,1482},{4694,0},{4230,1563},{4697,0},{4696,1491},{4698,1478},{4703,0},{4706,0},{4712,0},{4701,1572},{4701,1493},{4720,1497},{4713,1496},{4050,1574},{4721,0},{4263,1576},{4733,0},{4736,0},{4738,1425},{4727,0},{4748,0},{4755,1584},{4536,1586},{4773,1589},{4770,1588},{4767,1592},{4788,1593},{4785,1594},{4812,1599},{4809,1588},{4581,1601},{4575,1606},{4809,1598},{4809,1592},{4788,1594},{4791,1594},{4785,1589},{4575,1601},{4806,1590},{4812,1590},{4779,1588},{4773,1590},{4785,1590},{4818,1589},{4818,1590},{4821,1593},{4800,1593},{4581,1595},{4788,1590},{4770,1600},{4581,1591},{4575,1600},{4800,1599},{4581,1597},{4782,1605},{4809,1602},{4782,1588},{4797,1601},{4572,1589},{4785,1599},{4809,1524},{4581,1605},{4776,1594},{4572,1590},{4809,1606},{4773,1599},{4809,1591},{4773,1594},{4575,1597},{4767,1609},{4581,1606},{4818,1599},{4809,1601},{4581,1602},{4776,1599},{4572,1599},{4824,1381},{4767,1588},{4803,1594},{4767,1601},{4806,1599},{4812,1594},{4791,1599},{4809,1595},{4809,1600},{4581,1592},{4581,1609},{4575,1591},{4827,1593},{4806,1593},{4581,1607},{4575,1598},{4575,1592},{4581,1588},{4575,1609},{4575,1604},{4827,1590},{4818,1593},{4572,1593},{4815,1593},{4770,1601},{4572,1594},{4806,1594},{4821,1590},{4773,1593},{4791,1590},{4794,1593},{4770,1605},{4791,1593},{4785,1593},{4809,1609},{4809,1607},{4791,1589},{4806,1589},{4821,1594},{4818,1594},{4809,1596},{4797,1605},{4839,1273},{4794,1594},{4827,1594},{4832,0},{4847,0},{4581,1596},{4575,1607},{4788,1599},{4794,1599},{4812,1593},{4776,1593},{4821,1589},{4834,1327},{4809,1597},{4844,0},{4838,0},{4767,1600},{4581,1604},{4794,1590},{4575,1596},{4581,1600},{4794,1589},{4858,1331},{4867,1333},{4800,1594},{4868,0},{4851,1618},{4809,1604},{4767,1605},{4860,1461},{4827,1599},{4803,1593},{4879,1396},{4898,0},{4895,0},{4892,0},{4809,1605},{4886,0},{4575,1602},{4899,1220},{4888,1338},{3984,1623},{4882,1337},{4877,0},{3981,1611},{4776,1590},{4874,0},{4846,1391},{4797,1588},{4913,0},{4908,1550},{4596,1634},{4907,0},{4859,0},{4014,1629},{4011,1627},{4914,1553},{4920,1275},{4880,0},{4164,1641},{4928,0},{4930,1473},{4788,1589},{4936,1343},{4931,0},{4575,1605},{4932,1238},{4581,1598},{4812,1589},{4821,1599},{4940,0},{4937,0},{4575,1588},{4946,0},{4950,1397},{4949,0},{4955,0},{4954,1649},{4961,0},{4966,1656},{4945,1562},{4473,1654},{4970,0},{4967,0},{4704,1657},{4971,1658},{4983,1658},{4575,1595},{4995,1397},{4988,0},{5000,0},{4732,1666},{5009,0},{5010,1581},{4524,1671},{5018,0},{5021,0},{4772,0},{5024,0},{5027,0},{5033,0},{5030,0},{5036,0},{5135,0},{5111,0},{5114,0},{5132,0},{5126,0},{5141,0},{5138,0},{5039,0},{5048,0},{5066,0},{5045,0},{5120,0},{5123,0},{5117,0},{5129,0},{5108,0},{5105,0},{5102,0},{5078,0},{5075,0},{5099,0},{5093,0},{5096,0},{5084,0},{5081,0},{5087,0},{5072,0},{5069,0},{5090,0},{5063,0},{5060,0},{5057,0},{5054,0},{5051,0},{5042,0},{5261,0},{5258,0},{5249,0},{5252,0},{5276,0},{5255,0},{5246,0},{5174,0},{5162,0},{5285,0},{5171,0},{5168,0},{5291,0},{5156,0},{5165,0},{5159,0},{5216,0},{5234,0},{5240,0},{5237,0},{5210,0},{5228,0},{5231,0},{5225,0},{5270,0},{5264,0},{5273,0},{5279,0},{5282,0},{5222,0},{5213,0},{5219,0},{5267,0},{5243,0},{5192,0},{5150,0},{5288,0},{5147,0},{5207,0},{5153,0},{5204,0},{5198,0},{5201,0},{5183,0},{5195,0},{5186,0},{5189,0},{5144,0},{5180,0},{5177,0},{5348,0},{5333,0},{5344,1393},{5324,0},{5336,0},{5339,0},{5342,0},{5312,0},{5315,0},{5303,0},{4173,1773},{5357,0},{5306,0},{5307,1220},{5297,0},{5327,0},{5300,0},{5330,0},{5316,1616},{5294,0},{5360,0},{5316,1387},{5382,1241},{5387,0},{5366,0},{5378,0},{5396,0},{5402,0},{4179,1781},{5390,0},{5363,0},
{5374,1334},{5372,0},{5393,0},{5381,0},{5369,0},{5399,0},{5404,1398},{5423,0},{5449,1468},{5428,1798},{5445,1551},{5418,1802},{5453,0},{5434,1340},{5417,0},{5444,0},{5436,1803},{5426,0},{5441,0},{5432,0},{5454,1639},{3993,1822},{5463,1471},{5377,1341},{5471,0},{5375,0},{5459,0},{5405,0},{5450,0},{5460,1610},{4020,1811},{4188,1827},{5486,0},{5474,0},{5478,1228},{5477,0},{5491,1557},{5495,0},{5497,1344},{5505,1304},{5492,0},{5504,0},{4419,1833},{5510,0},{5517,1558},{5349,1784},{5498,0},{5513,0},{5516,0},{4029,1840},{5525,0},{5526,1562},{5529,1245},{5535,1844},{5541,1569},{5549,0},{5556,1851},{5552,0},{5561,0},{5564,0},{5570,0},{5571,1260},{5001,1859},{5588,0},{5591,0},{5604,1867},{5613,1870},{5607,1868},{5625,1873},{5655,1891},{5640,1884},{5646,1872},{5667,1876},{5649,1904},{5691,1893},{5661,1906},{5622,1905},{5694,1877},{5697,1903},{5685,1871},{5700,1901},{5682,1878},{5658,1896},{5676,1890},{5637,1881},{5664,1902},{5799,1954},{5832,1914},{5772,1926},{5754,1948},{5760,1949},{5838,1915},{5766,1916},{5757,1910},{5784,1943},{5865,1939},{5682,1956},{5835,1947},{5787,1913},{5811,1927},{5820,1870},{5751,1877},{5775,1936},{5853,1783},{5712,1885},{5736,1895},{5763,1784},{5733,1931},{5727,1870},{5781,1932},{5856,1948},{5790,1899},{4863,1950},{5670,1965},{5927,0},{5817,1968},{5878,1335},{5889,1953},{5916,1958},{5907,1901},{5772,1965},{5853,1883},{5883,1957},{5637,1962},{5856,1935},{5903,0},{5912,0},{5652,1958},{5775,1909},{5832,1942},{5811,1946},{5922,1966},{5625,1991},{5976,1889},{5936,0},{5898,1904},{5787,1992},{5931,1915},{5970,1989},{5427,1983},{5851,1621},{5745,1884},{5796,1910},{5965,1469},{5943,1905},{4023,1982},{5937,1275},{5847,1889},{5844,1899},{5957,0},{5664,1984},{5733,1993},{5616,1969},{5989,1401},{6021,2005},{5646,1881},{5966,0},{5999,0},{5996,0},{5984,0},{6004,1470},{6000,2003},{5613,1903},{5808,1907},{5865,1995},{5754,1964},{6014,0},{6034,1825},{4002,2013},{5919,1892},{4005,1959},{4410,2001},{4194,2015},{6048,1230},{6029,0},{6032,0},{6053,0},{6035,0},{5990,0},{6026,0},{5993,0},{6063,1829},{5754,1966},{6056,0},{6068,0},{6059,0},{5983,1819},{5841,1993},{5883,1898},{5706,1936},{5751,1913},{5616,1915},{5607,1867},{5943,2025},{6079,1477},{5640,1897},{5772,1896},{6092,0},{6084,1647},{6083,0},{6093,2029},{5697,1909},{5958,1974},{5661,1976},{6000,1964},{5853,1906},{5805,1891},{5931,1945},{5973,1903},{6080,0},{6098,0},{4032,2034},{5772,1869},{6105,1987},{5712,1891},{5715,1949},{5775,1912},{5637,1889},{6108,1881},{5658,1877},{5736,1936},{5919,1958},{6113,0},{5631,1901},{5832,1885},{5769,1897},{6114,1946},{5754,1877},{5943,1886},{5871,2002},{5778,1783},{5928,1876},{5637,1940},{5913,1895},{5682,1932},{5904,1870},{5784,1874},{6119,0},{5649,1887},{5829,1900},{6125,0},{6006,1909},{5664,1898},{6122,0},{5616,1949},{5817,1948},{5706,1987},{5967,2002},{5835,1919},{5733,1974},{5718,1895},{5649,1935},{5871,1991},{5548,2042},{6128,0},{5790,1972},{5832,1913},{5814,1885},{5754,1969},{5913,1885},{5829,1960},{6075,1990},{5838,1909},{6135,1659},{5637,1912},{5625,1995},{6134,0},{5784,1923},{5778,1869},{5781,1956},{6009,1891},{5352,1903},{5898,1784},{5751,1969},{5796,1948},{5862,1976},{6108,1987},{5640,1898},{5706,1898},{5922,1905},{5712,1941},{6087,1947},{5853,1890},{5829,2003},{5664,1910},{5631,1909},{5868,1919},{5619,1934},{5958,1905},{5748,1914},{5766,1907},{5787,1920},{5958,1961},{5787,1915},{5736,1890},{5724,1938},{5625,1940},{5913,1910},{5853,1911},{5775,1977},{5796,1945},{5790,1947},{6114,1890},{6093,1957},{6108,1931},{5856,1907},{5679,1919},{5751,1919},{5868,1877},{5865,1973},{5778,1938},{5718,1898},{5931,1871},{5922,1933},{5811,1909},{6006,1891},{5874,1899},{5724,1903},{5985,1953},{5802,1920},{5790,1921},{5640,1972},{6138,2047},{6114,1881},{5976,2003},{5985,1958},{5796,2000},{5952,1900},{5880,1968},{5943,1900},{5829,2031},{5640,1921},{5808,1899},{5658,1908},{5766,1993},{6144,1873},{5775,1884},{5952,1973},{5682,1891},{5976,1916},{5613,1948},{5706,1915},{5889,1954},{5796,1922},{5793,1886},{6114,1897},{6000,1917},{5742,1933},{5958,1990},
{5883,1940},{5817,1991},{5646,1955},{5637,1901},{5862,1876},{5787,1930},{5823,1953},{5811,2002},{5622,2000},{5883,1973},{5853,1974},{5958,1936},{6149,0},{5889,1885},{5769,1924},{5841,2035},{5952,1884},{5979,1893},{5832,1995},{5889,1934},{5826,1990},{5868,1908},{5688,1910},{5622,1931},{5856,1909},{5664,1867},{5979,1952},{6009,1907},{5646,1922},{5799,1867},{5784,1867},{5784,1987},{5781,1995},{5958,1926},{5616,1957},{5970,1867},{5640,1919},{5811,1936},{5643,1940},{5766,1887},{5931,1906},{5778,1881},{5799,1898},{5943,1783},{5853,1915},{5913,1941},{6152,0},{5922,2036},{5625,1923},{5943,1960},{5715,1917},{5607,1912},{5931,1900},{5880,1868},{5796,1897},{5634,1783},{5841,1901},{5784,1894},{5637,1919},{5976,1930},{5784,1882},{6114,1908},{6105,1969},{5682,1944},{5640,2029},{5661,1914},{5622,1908},{5943,1965},{5817,1896},{5649,1933},{5868,1886},{5985,1940},{5871,1962},{5826,2031},{5739,1952},{5619,1872},{5952,1976},{5649,1912},{5916,1934},{5742,1896},{5793,1867},{5919,1895},{5970,1901},{5880,1953},{5979,1913},{5616,1902},{5787,1888},{5826,2048},{5778,1953},{5952,1890},{5658,1905},{5742,1957},{5838,1968},{5676,1958},{5748,2000},{5814,1889},{5670,1891},{5820,1962},{5787,1995},{5754,1895},{5682,2031},{5817,1949},{5802,1876},{6157,1510},{5889,2035},{5799,1934},{4530,2052},{5634,1914},{5958,1879},{5832,1918},{5775,1955},{5793,1987},{5631,1920},{5775,1995},{5616,1962},{6144,1990},{5811,1889},{5349,1877},{5841,2000},{5766,1874},{5880,1917},{5682,1965},{5763,1913},{5745,1899},{5733,1973},{5718,1890},{5757,1901},{5691,1868},{5823,1868},{5796,1964},{5874,2003},{5748,1902},{5601,1896},{5766,1897},{5772,1972},{5700,1949},{5787,2048},{5682,2036},{5874,1935},{6006,1884},{5907,1936},{5604,1954},{5928,1935},{5853,1964},{5712,1903},{5718,1964},{5922,1989},{5784,2031},{5772,1890},{5817,1891},{5898,1915},{5766,1920},{5664,1912},{5880,1893},{6114,1977},{5781,2000},{6108,2029},{5958,1881},{5784,2048},{5904,1892},{5976,1991},{5685,1898},{6009,1889},{5682,1993},{5865,1966},{5832,1869},{5625,1943},{5748,1987},{5790,2029},{6114,1947},{6099,1872},{5871,1890},{5820,1900},{5889,1905},{5781,1929},{6087,1964},{5943,1958},{5838,1949},{5769,1908},{5622,1945},{5985,1969},{5796,1916},{5781,1977},{5664,1890},{5811,1977},{5622,1914},{6087,1876},{5775,1915},{5835,1871},{6445,2142},{6162,2055},{6192,1941},{6183,1942},{6189,1921},{6204,1907},{6174,2062},{6201,1934},{6180,1938},{6213,2070},{6216,1956},{6207,1923},{6219,2053},{6171,1953},{6195,1908},{6177,2056},{6198,1935},{6288,2078},{6297,2094},{6222,2080},{6276,1869},{6294,1964},{6291,1938},{6302,0},{6285,1973},{6270,2089},{6264,1906},{6246,2077},{6237,1971},{6255,2093},{6225,1960},{6252,2076},{6258,2491},{6354,2116},{6318,2119},{6339,2114},{6351,2101},{6345,2112},{6306,1980},{6330,2107},{6333,2109},{6315,1878},{6313,1466},{6383,0},{6404,0},{6401,0},{6390,1913},{6387,1902},{6363,1984},{6394,1998},{6395,0},{7527,2103},{6360,1927},{6408,1891},{6372,2123},{6386,0},{6420,2138},{6375,2002},{6396,1783},{6405,1965},{6411,2006},{6424,2008},{6255,1912},{4398,2104},{4407,2144},{6441,2014},{6459,2151},{6425,0},{6384,2154},{6031,2155},{6495,2023},{6483,1397},{6476,0},{6428,0},{4203,2166},{6465,2163},{6470,0},{6479,0},{6482,0},{6486,2020},{6510,1945},{6519,2172},{6523,2169},{6294,2177},{6509,0},{6534,1914},{6174,2176},{6525,1873},{6261,2157},{6537,2101},{6543,1984},{6552,2183},{6582,1934},{6560,0},{6548,0},{6555,2187},{6547,2032},{6576,1962},{6570,2191},{6579,1919},{6567,2033},{6615,1944},{6585,2029},{6618,1966},{4431,2197},{6606,2204},{6588,1945},{6599,0},{6600,2201},{6624,1926},{6420,1995},{6642,1942},{6633,1904},{6636,1971},{6627,1902},{6654,1972},{6648,1989},{6660,1868},{6657,2181},{6672,2029},{6666,1895},{6675,1652},{6669,1890},{6678,1925},{6261,2211},{6543,2321},{6681,1784},{6687,2230},{6684,2231},{6696,1911},{6186,2235},{6699,1884},{6129,2242},{6729,2003},{6744,2244},{6714,2239},{6738,2247},{6318,2000},{6186,1918},{6789,2139},{6777,1962},{6783,1900},{4987,2251},{6774,1935},{6780,1961},{6768,2255},{6750,1937},{6786,1956},
{6756,2035},{6261,2067},{6825,1989},{6657,1930},{6831,1984},{6804,1991},{6813,2273},{6755,0},{6828,1926},{6351,1873},{6822,1893},{6795,2264},{6798,1893},{6816,2031},{6804,2069},{6906,2271},{6858,1890},{6903,2303},{6609,2206},{6864,1963},{6900,2299},{6888,2294},{6891,1913},{6846,2298},{6834,2058},{6837,1928},{6873,1946},{6852,1900},{6867,2290},{6966,2323},{6936,2311},{6957,2316},{6945,1882},{6942,1963},{6351,2305},{6351,1946},{6276,1925},{6972,2325},{6932,0},{6783,2285},{6960,1935},{6528,1896},{6678,1889},{6921,1868},{6924,2321},{6951,1895},{6912,2036},{6357,2157},{7038,1783},{7041,1933},{7014,1958},{7035,2035},{6984,2336},{6255,1884},{6981,1931},{6978,2031},{7005,2025},{7029,2109},{6987,2332},{7011,1879},{7026,1954},{7074,1893},{6804,2359},{7098,2048},{7092,1876},{7083,1989},{7101,1971},{7095,1960},{6651,1954},{6963,1948},{6963,2214},{7065,1963},{7050,2029},{7062,2351},{6954,1977},{6789,2055},{7059,1962},{7068,2035},{6960,2176},{7113,1947},{7116,2048},{7158,1928},{7110,2373},{7131,2379},{7161,2382},{7167,1905},{7143,1993},{7140,1919},{7122,1944},{7128,2048},{7149,1668},{7125,2048},{6420,1949},{7134,1886},{7209,2402},{7188,1896},{7218,2153},{7017,1784},{7185,1887},{7200,2299},{7176,1971},{7179,1917},{7194,1957},{7086,1952},{7191,2025},{6963,2056},{6276,1946},{6162,2120},{7227,1972},{7248,2417},{7242,2415},{7233,2410},{7260,2357},{6174,1909},{6165,2003},{7266,1917},{7275,1974},{6189,1992},{6783,2203},{7287,2428},{7290,1876},{7299,2432},{7077,1911},{7305,1951},{6177,2206},{7314,1882},{7317,1898},{6357,1888},{7311,2025},{7338,2243},{7335,1923},{7331,0},{6879,1915},{7350,1907},{7353,1938},{7347,2025},{7359,2452},{7362,1956},{7365,1972},{7368,2401},{7374,1923},{7377,2420},{7383,1926},{7380,1889},{6309,1888},{7386,1938},{7398,1954},{7395,1990},{7401,1913},{7404,2000},{7416,2471},{7410,1990},{7077,2240},{7425,2476},{7434,2201},{7437,1922},{7404,1943},{6954,2243},{7440,1956},{7062,1892},{7446,2483},{7011,1933},{6645,1878},{7458,2485},{7464,1867},{7461,1965},{7467,1898},{6162,1948},{6417,2235},{7479,2035},{7476,2491},{7482,1917},{7488,1905},{7497,1942},{6414,2000},{7506,1987},{7503,1879},{7509,1910},{7518,2120},{7521,1942},{7533,1991},{7539,1938},{6159,2029},{7542,1924},{7545,2029},{6207,2062},{7554,2025},{7557,1936},{7551,1971},{7566,1931},{7563,2520},{7572,1955},{7569,2036},{7062,1958},{7713,2570},{7617,2534},{7623,2535},{6273,2537},{7590,2083},{7599,1976},{7593,2081},{7596,2087},{7626,2540},{7614,2536},{7587,2528},{7644,1962},{7647,1804},{7671,2103},{7653,2552},{7638,1986},{7668,2108},{7650,2555},{7632,1923},{7662,2062},{7659,1987},{7705,1405},{7685,0},{6417,2562},{7677,2563},{7680,2567},{7692,2122},{7695,2566},{7760,0},{4215,2568},{7740,1870},{7746,2579},{6447,2578},{7755,2152},{7731,2150},{6012,2581},{7722,2572},{7728,2146},{6036,2569},{7719,2143},{7580,0},{7769,0},{7787,0},{7779,2167},{7772,0},{7775,0},{7762,2586},{7817,0},{7802,0},{6444,2599},{6073,2605},{7805,0},{7790,0},{7793,0},{7809,2171},{7826,0},{7823,0},{6540,2606},{7684,2575},{6522,2610},{7827,2611},{7848,1897},{7842,1955},{7845,2612},{7839,2188},{7867,2621},{7632,2543},{7878,2624},{7851,2119},{7860,2198},{7887,1875},{7881,2207},{7865,0},{7896,2213},{7899,2210},{7892,0},{7893,2634},{7920,2221},{7911,1869},{7914,2217},{7929,1884},{7947,1964},{7938,2645},{7943,0},{7964,0},{7965,2236},{6724,2654},{7968,2240},{7971,2245},{6771,2661},{7977,2253},{7976,0},{6789,2662},{7998,1939},{8019,1992},{8016,1915},{8010,2269},{5545,2647},{7989,1910},{8007,2267},{8001,1936},{7995,2666},{8049,1987},{8028,2292},{8040,2684},{8034,1898},{6849,2677},{8025,2281},{5574,2681},{8046,1888},{8079,2690},{7662,2552},{7644,2687},{6939,2682},{8067,2695},{8106,2700},{8064,2547},{8076,2306},{8082,2691},{7776,2069},{8130,1951},{8142,2340},{8127,2025},{8088,2277},{8163,2715},{7017,2536},{8148,1783},{8124,2334},{8118,2331},{8121,2333},{8133,2703},{8139,2181},{8157,2680},{6189,2705},{7929,2203},{7086,2704},{8181,2731},{8187,2724},{8199,2352},{6633,2732},{7884,2705},{8157,2357},{6657,2720},{6831,2725},
{8184,1921},{8169,1949},{8244,1883},{8250,2388},{8214,2737},{8247,2320},{8235,2224},{8229,1992},{8226,2739},{7701,1935},{8169,1888},{8223,2740},{8241,2384},{8205,2368},{8268,2754},{5008,2764},{8277,2394},{8280,2761},{7197,2765},{8286,2763},{8256,2391},{8298,2404},{8294,0},{8301,2401},{8307,1991},{8175,1968},{8325,2774},{8328,2770},{8019,2033},{8337,1907},{8313,2408},{7764,1971},{7671,2214},{8031,1875},{8352,2783},{8358,2106},{8361,1974},{8364,1939},{8373,2431},{8367,2790},{8202,1925},{7308,2793},{8388,2442},{8391,2444},{8397,2800},{8184,2101},{7851,2339},{8409,2447},{8418,1961},{8421,2808},{8184,1943},{8445,2814},{8454,1878},{8451,2816},{8457,2464},{8460,2821},{8466,2469},{8472,2825},{8031,1989},{8487,2063},{6543,2810},{8493,1904},{8490,1870},{8499,2484},{8508,2036},{8517,2838},{8196,2835},{8520,2490},{8526,2841},{8532,2843},{8535,2495},{8538,2498},{8541,2500},{7764,2835},{8184,2473},{8544,1883},{8553,2504},{7515,2673},{8559,2510},{8556,2509},{8562,2512},{6168,2855},{6915,2855},{8307,1883},{8571,2856},{7071,2765},{8583,2860},{8487,2261},{8592,2863},{8595,2866},{8601,1905},{8616,2545},{8619,2874},{8634,2877},{8625,2558},{8610,2871},{8628,2547},{8607,2543},{8640,1997},{8637,2538},{8643,2882},{8661,2886},{8664,2126},{8655,2883},{8679,2895},{7749,2892},{8684,0},{7632,2891},{8667,2145},{7725,2890},{8649,2873},{8642,0},{8703,2592},{8606,0},{7764,2907},{7761,2896},{8717,0},{8706,2900},{8711,0},{8693,0},{8720,0},{8697,2157},{7579,2868},{8727,2598},{8668,1999},{8736,2602},{7812,2913},{8735,0},{8748,2921},{8768,0},{8744,0},{8756,0},{6072,2915},{8753,0},{8732,0},{8760,2919},{8775,2067},{8780,0},{8787,2203},{7825,2922},{8793,2932},{8790,2625},{8784,2623},{6189,2869},{8783,0},{8613,1874},{8808,2628},{8802,2215},{8801,0},{8813,0},{5539,2942},{7866,2940},{8814,2639},{8823,2944},{8828,0},{8841,2641},{8838,2642},{8844,1977},{8847,2234},{5544,2951},{7575,3076},{6723,2952},{7980,2956},{8865,2249},{8874,2674},{8832,2623},{8864,0},{7992,2871},{8880,1968},{8901,2685},{8889,2287},{8897,0},{8883,1896},{8898,2295},{8904,2686},{8886,2679},{8094,2974},{8925,2697},{8775,2699},{8088,2970},{8930,0},{8916,1891},{8931,1947},{8154,2980},{8958,2982},{7581,2978},{8943,2984},{8955,2717},{8649,1921},{8178,2990},{8985,2730},{9003,2351},{9006,1948},{8994,2055},{8982,2360},{9000,2734},{8979,2363},{6261,2904},{8973,2002},{9033,2385},{9015,3003},{9021,1952},{9018,1962},{8994,2087},{9027,1904},{9030,2970},{9072,2101},{9045,2758},{9060,1904},{9042,2755},{9063,1936},{9099,2768},{5583,3034},{8319,3030},{9096,1900},{8775,1943},{9108,1889},{9120,2780},{9111,2412},{9123,2413},{9129,2418},{9126,2782},{9132,1904},{9135,1889},{8097,2964},{9147,2434},{6261,3050},{9156,1879},{9162,1935},{9174,1870},{9171,2793},{9177,2033},{9180,2811},{7086,3061},{9192,2059},{7389,2869},{8868,2722},{9150,1937},{6303,3068},{8703,1952},{8478,3070},{9213,2941},{9222,2481},{9219,2832},{6174,2874},{8787,2835},{8703,2305},{9234,1866},{9261,2849},{8166,3088},{9267,2508},{8970,1879},{9183,3083},{9282,2138},{9264,2662},{9285,1783},{7854,2992},{9291,1871},{9297,1992},{9324,3109},{9321,3105},{9318,3103},{9312,2884},{9336,2584},{9333,3115},{9339,3114},{9332,0},{8712,3119},{9354,2164},{9366,3116},{9362,0},{9365,0},{6504,3123},{8694,3117},{9375,2908},{9372,3129},{9383,0},{8730,3132},{9407,0},{8743,3135},{9409,2607},{9416,0},{9410,0},{9413,0},{8755,3137},{9404,0},{8779,3140},{8769,3141},{9434,0},{8718,3146},{9422,0},{9444,2618},{9443,0},{9465,2139},{8805,3154},{9459,3152},{7905,3157},{9477,2636},{9483,2943},{9455,0},{9491,0},{9309,2928},{9495,1899},{7932,3164},{9488,0},{9504,3129},{7953,3167},{5538,3166},{9507,2237},{9510,2157},{9515,0},{9521,0},{6642,3175},{8871,3174},{9531,2293},{9537,2969},{9540,2280},{8892,3176},{9558,3184},{9561,2701},{9543,1995},{9579,2344},{9582,2330},{9501,1784},{9504,2543},{8937,3188},{9570,2059},{9576,2349},{9573,2240},{9594,3196},{9492,2722},{9585,2989},{9528,1921},{8997,3197},{9600,2996},{8652,3106},{9630,2751},{9627,2618},{9621,3013},{9624,2746},{9012,3201},{9606,3181},{9615,3008},
{9651,3022},{9642,2407},{9648,2405},{9636,3189},{9660,2772},{7776,3175},{9666,2778},{9654,2263},{9663,3219},{9117,3225},{9669,2002},{9674,0},{9678,1909},{9693,3232},{9690,3103},{9684,2419},{9702,2424},{9705,2427},{9708,2285},{9711,2795},{9717,2802},{9714,2801},{9669,2139},{9387,2062},{9720,2448},{9723,2812},{9738,2002},{9177,3221},{9744,2823},{9747,1951},{9546,2029},{9606,2420},{9750,2157},{9768,2672},{9762,2834},{9690,2120},{9327,2874},{9324,2873},{9774,2003},{9525,2103},{9777,1963},{9786,3091},{9789,1963},{9462,1899},{9795,2516},{9792,2215},{9801,2858},{9804,2468},{9819,3274},{9813,3272},{9828,3277},{8610,3275},{7782,3278},{9854,0},{9399,3285},{9843,3275},{9393,3282},{9384,3283},{9837,3126},{9842,0},{9390,3278},{9417,3288},{9860,0},{9869,0},{9426,3290},{9876,3293},{9882,2924},{9441,3297},{9429,3295},{9899,0},{7857,3300},{9447,3302},{9905,0},{9877,3138},{9402,3304},{9909,3150},{9918,3307},{9915,3158},{9932,0},{9927,3308},{9942,2648},{9487,3310},{9945,2650},{9939,2567},{9954,2527},{9959,0},{6762,3322},{9516,3321},{8877,3323},{9972,2687},{9975,2069},{9978,2973},{9975,3167},{9987,2318},{9981,3185},{9984,2971},{9996,1964},{9993,2983},{9990,2704},{10008,2623},{5581,3339},{10005,2992},{10002,3337},{9999,1871},{10014,3340},{10026,2736},{10032,3170},{10029,3341},{9036,3347},{10019,0},{10047,3017},{10050,3018},{10062,2729},{10041,1923},{10059,3215},{10053,3352},{10065,3035},{10074,3354},{10083,3276},{10077,2067},{10086,2781},{9681,3334},{10095,1928},{10101,2421},{10104,1948},{10113,1921},{9159,3373},{10122,2085},{10128,2804},{10131,2285},{10104,2337},{10083,3333},{10104,3379},{10152,2474},{9828,2463},{10161,2477},{10155,3251},{10164,3257},{7389,3389},{10170,3076},{10173,3392},{10041,2996},{9975,2055},{9096,3389},{10194,2179},{8613,3359},{7632,3351},{6543,3379},{10230,3413},{9861,3409},{10212,3403},{10223,0},{10218,3405},{10238,0},{10235,0},{10245,3414},{10250,0},{9435,3417},{10234,3291},{10265,0},{10268,0},{10271,0},{10259,0},{10262,0},{10249,3298},{10280,0},{9468,3424},{10277,0},{10289,0},{10286,0},{10290,2939},{8800,3425},{9889,3412},{10296,2945},{9948,3433},{7956,3438},{10311,2653},{10305,2950},{10317,2953},{8895,3443},{10326,2671},{8005,3441},{10325,0},{10331,0},{10332,2309},{10335,3182},{9567,3449},{10344,2348},{9459,3446},{10341,3182},{10350,3413},{10347,3199},{10356,2992},{10359,2988},{7170,3458},{10377,3206},{10368,3203},{8896,3443},{10367,0},{10362,2369},{5580,3464},{10380,2753},{10383,3019},{10302,1972},{10404,1873},{10398,3467},{10395,3028},{10407,3356},{10416,3038},{10089,3471},{10425,2785},{10401,2770},{10356,2285},{10092,3473},{10431,2351},{10434,2742},{10437,1903},{10440,3221},{10413,3375},{10443,3056},{9189,3446},{9741,3485},{10413,2925},{10461,2473},{10146,3478},{10467,3386},{10473,2827},{10470,2828},{10461,3374},{10449,3371},{10476,2837},{10479,3470},{10488,2226},{7419,3495},{9258,3449},{10491,2357},{9255,3477},{10338,2058},{10350,2069},{7419,3413},{10497,2932},{9279,3451},{10386,3550},{10517,0},{10518,3408},{9873,3509},{9888,3508},{10532,0},{10514,0},{10509,3505},{10538,0},{9894,3511},{10541,0},{10523,0},{10542,3518},{10545,3427},{10565,0},{10563,3428},{10559,0},{9480,3522},{10293,3525},{10583,0},{10536,3311},{10302,3528},{10510,3504},{10589,0},{10511,0},{10590,3320},{10593,3532},{10599,2592},{10610,0},{10604,0},{10605,1991},{8004,3537},{9549,3538},{8160,3539},{10623,3451},{10635,2699},{10632,2987},{10371,3548},{10638,3547},{10653,3016},{10662,3025},{10647,2757},{10671,3029},{10668,3026},{10665,3027},{8331,3558},{10677,2739},{10080,3560},{10667,0},{10626,3347},{10575,1993},{10593,2728},{10692,3474},{9699,3563},{10107,3567},{10698,2684},{10704,3565},{10710,2792},{10713,2441},{10716,2798},{10605,3343},{10722,2058},{10134,3573},{9186,3565},{10725,3466},{10512,3503},{10731,3486},{10734,3579},{10740,3252},{10722,3582},{10749,3584},{10755,2473},{10758,3494},{10485,3582},{10755,2829},{10650,1921},{10761,2497},{10626,3024},{10764,2793},{10773,2850},{10767,3590},{10575,3548},{10779,2810},{10776,3068},{10689,3054},
{10785,3199},{10782,3500},{10677,3064},{10503,3533},{10869,3622},{10795,3507},{10797,3418},{10802,0},{10805,0},{10814,0},{10820,0},{10794,3608},{9453,3605},{10823,0},{10829,0},{10844,0},{10838,0},{10572,3611},{10847,0},{10522,3615},{10853,0},{9951,3618},{10509,3603},{5562,3619},{10320,3620},{5559,3603},{4980,3621},{4989,3608},{10872,2270},{4980,3603},{5565,3621},{5559,3598},{5565,3603},{10875,3626},{10881,1881},{5559,3608},{4980,3598},{10889,0},{10886,0},{8136,3621},{4191,3621},{4989,3603},{4992,3598},{4494,3608},{10629,3630},{4494,3603},{4725,3619},{10896,2744},{10038,3631},{4989,3598},{10899,3345},{4992,3608},{5565,3598},{4992,3621},{4980,3608},{4740,3608},{10650,3634},{4191,3603},{10905,3213},{10410,3636},{10793,0},{10911,3622},{10926,3562},{8160,3639},{10925,0},{4515,3608},{4518,3598},{10929,1935},{10932,3229},{5565,3608},{6153,3621},{10944,3233},{10950,2293},{10947,3370},{10938,2728},{4518,3621},{4521,3619},{7269,3647},{4740,3603},{4191,3598},{10953,3047},{4518,3603},{10961,0},{4515,3598},{4515,3603},{4740,3621},{4287,3603},{4749,3603},{4284,3598},{4287,3608},{4533,3619},{4284,3608},{4749,3598},{10962,2794},{4284,3621},{5592,3621},{10968,3055},{10971,2810},{4290,3608},{4191,3608},{4518,3608},{5595,3621},{10974,2457},{4740,3598},{10977,3484},{4749,3608},{3876,3608},{4290,3598},{4290,3603},{3876,3598},{4077,3608},{4989,3621},{4494,3598},{4992,3603},{10983,3381},{4749,3621},{4287,3598},{4284,3603},{10989,3383},{10992,3488},{10995,3581},{10998,3072},{11001,3075},{11007,3077},{11010,3219},{11016,3671},{11019,3082},{11022,2235},{11031,3676},{11034,3063},{11037,3680},{10494,3681},{6255,3622},{11049,3596},{11046,3636},{11052,1925},{11055,3402},{10908,2067},{10911,3375},{10926,2742},{11229,3640},{11445,3096},{11063,0},{11064,3602},{10551,3689},{10548,3690},{10827,3695},{11081,0},{11084,0},{10560,3692},{10821,3696},{9936,3697},{10824,3700},{11111,0},{11101,3703},{10795,3704},{11117,0},{11123,0},{11073,3603},{8863,3706},{11126,0},{11120,0},{4992,3700},{11129,0},{11141,0},{11135,0},{11060,0},{11138,0},{11130,2285},{11153,0},{11144,0},{11147,0},{11156,0},{11148,2341},{4192,3721},{11168,0},{4989,3700},{11177,0},{11171,0},{11174,0},{11178,3204},{4518,3700},{4494,3700},{5559,3700},{10792,3686},{11190,3348},{11201,0},{11198,0},{11195,0},{11187,3211},{11183,0},{11186,0},{11219,0},{11207,0},{11204,0},{11210,0},{11216,0},{11220,3031},{11213,0},{11223,3561},{4494,3742},{11227,3738},{11238,3366},{11235,3184},{11234,0},{4980,3700},{11247,2426},{11255,0},{11250,3046},{11246,0},{11243,0},{11259,3652},{3826,3752},{11277,3048},{11282,0},{11262,3569},{11273,0},{4740,3700},{11276,0},{4515,3742},{11233,3653},{11268,2719},{11267,0},{11312,0},{11315,0},{4287,3700},{11285,0},{11300,0},{11297,0},{11303,0},{11291,0},{11318,0},{11309,0},{11306,0},{4992,3742},{10965,3775},{11330,0},{11324,0},{11325,2056},{11321,0},{4518,3742},{3876,3700},{5565,3700},{3727,3777},{11334,3483},{9726,3779},{11342,0},{4515,3700},{4284,3700},{11348,0},{11357,0},{3715,3783},{9735,3784},{11358,3244},{11345,0},{11363,0},{11372,0},{11378,0},{11375,0},{4989,3742},{4740,3742},{11369,0},{11366,0},{5559,3742},{11384,0},{11387,0},{11381,0},{4077,3700},{11334,3186},{4191,3700},{4287,3742},{4749,3700},{11388,3066},{11393,0},{11399,0},{11396,0},{4980,3742},{4290,3700},{4749,3742},{4284,3742},{11400,3069},{11405,0},{5565,3742},{4077,3742},{3691,3802},{4290,3742},{11409,3253},{3876,3742},{11408,0},{4191,3742},{11414,0},{11417,0},{11418,3394},{11421,3080},{11424,3083},{9018,3710},{11025,3809},{11432,0},{11430,1242},{11436,3090},{11433,3261},{11439,3397},{11448,3266},{11442,3539},{10917,3784},{11451,2862},{11460,3819},{11463,2318},{10506,3808},{11586,3023},{4191,3972},{10809,3824},{11477,0},{11480,0},{11483,0},{11486,0},{11490,3523},{10558,3826},{11495,0},{10582,3831},{11482,3526},{11498,0},{10309,3833},{11504,0},{4494,3835},{11510,0},{11501,0},{11062,3840},{11517,3838},{11100,3835},{11506,3686},{5562,3837},{9534,3843},{11534,0},{11505,3848},{11550,2261},{11538,3847},{4494,3848},{4992,3835},
{11160,3853},{10626,3855},{11553,3854},{11576,0},{4515,3835},{11591,0},{11577,3861},{11594,0},{11607,3621},{11613,3638},{11616,3873},{11597,0},{11603,0},{11639,0},{4992,3848},{11214,3867},{4989,3835},{11226,3878},{11544,3742},{11568,1397},{5559,3835},{11648,0},{11651,0},{11467,3881},{11569,1487},{4518,3835},{4515,3848},{10428,3885},{11663,0},{11659,3822},{4518,3848},{11672,0},{11676,3891},{4740,3835},{4521,3837},{11468,0},{11679,3051},{11700,3898},{11705,0},{11699,0},{11691,3372},{11709,3855},{11286,3895},{11635,3867},{4494,3878},{11723,0},{11718,3905},{11745,3913},{4989,3848},{4740,3848},{11730,3912},{5559,3848},{11750,0},{4077,3835},{11751,1870},{11768,0},{4515,3878},{10446,3920},{4980,3835},{11774,0},{11775,1242},{11683,1349},{11771,0},{11778,3243},{11776,1284},{4287,3835},{11789,0},{11781,3380},{4725,3837},{11792,0},{10980,3934},{4992,3878},{4518,3878},{4980,3848},{11825,0},{5565,3835},{11807,0},{11828,0},{11829,3944},{11682,1275},{11817,3940},{11849,0},{4740,3878},{11838,3947},{11513,0},{11837,0},{4749,3835},{4284,3848},{4287,3848},{4284,3835},{11799,1238},{4533,3837},{11858,0},{3715,3933},{11861,0},{11850,2235},{11855,0},{4989,3878},{5559,3878},{5565,3848},{11871,3956},{11876,0},{11864,0},{4077,3848},{3876,3835},{4284,3878},{4287,3878},{4749,3848},{4191,3835},{11885,0},{11882,0},{11879,0},{4749,3878},{4980,3878},{11888,0},{11894,0},{3876,3848},{4290,3835},{11897,0},{3876,3878},{11900,0},{4191,3848},{4290,3848},{11903,0},{4077,3878},{11904,3255},{3690,3970},{11909,0},{5565,3878},{11890,3804},{4287,3963},{11889,3972},{11004,3855},{4191,3878},{11917,3805},{4290,3878},{4287,3972},{4284,3963},{11916,3973},{11922,3395},{11925,3081},{4515,3963},{4749,3972},{4284,3973},{4515,3972},{4518,3963},{4740,3963},{4518,3972},{4515,3973},{4287,3973},{4284,3972},{4749,3963},{11931,1903},{11928,2468},{4077,3972},{3876,3963},{4749,3973},{4290,3972},{3876,3973},{4494,3963},{4290,3963},{3876,3972},{4077,3973},{4740,3972},{4518,3973},{4077,3963},{4992,3963},{4494,3972},{4290,3973},{4740,3973},{11934,3260},{11937,1284},{4992,3972},{4494,3973},{4989,3963},{11942,0},{5559,3963},{4989,3972},{4992,3973},{4989,3973},{11946,3092},{11943,3396},{5559,3972},{4980,3963},{11951,0},{11471,0},{5559,3973},{5565,3963},{4980,3972},{11955,3400},{11952,3399},{4191,3973},{4191,3963},{4980,3973},{5565,3972},{5565,3973},{8577,3986},{11454,3987},{11964,3270},{11970,3989},{11979,3691},{10830,3994},{10839,3995},{11988,3526},{10848,4000},{11991,3698},{11997,4001},{11097,3997},{12014,0},{12021,3701},{12020,0},{10308,4008},{12035,0},{12030,3842},{12041,0},{12029,0},{12038,0},{12044,0},{12008,0},{12050,0},{10620,4017},{12059,0},{12062,0},{12065,0},{12066,2140},{12077,0},{12084,3868},{12096,3877},{12093,3875},{12100,4030},{12087,1397},{12107,0},{12113,0},{11634,4033},{12110,0},{12116,0},{12119,0},{12103,3881},{12125,0},{11598,4043},{12092,0},{12143,0},{12140,0},{12144,3888},{11265,4034},{12152,0},{12159,3896},{11706,4050},{11712,4034},{12167,0},{12157,3653},{12164,0},{12155,0},{12137,0},{12191,0},{12174,3909},{11725,4057},{12194,0},{12204,3918},{12197,0},{11757,4066},{12212,0},{12209,0},{12233,0},{12225,2809},{12218,0},{12239,0},{12234,3379},{12173,0},{12224,0},{12248,0},{4749,4033},{12252,2813},{12260,0},{12257,0},{12261,3931},{11809,4088},{4515,4033},{4494,4033},{12278,0},{12269,0},{4740,4033},{12281,0},{12273,3065},{12266,0},{4518,4033},{12284,0},{12290,0},{3690,4105},{12311,0},{4287,4097},{12332,0},{12323,0},{12329,0},{12326,0},{12352,3954},{4992,4033},{4515,4097},{10728,4116},{12338,0},{12356,0},{4518,4097},{4284,4097},{12359,0},{12362,0},{4287,4033},{11853,4123},{12386,0},{12389,0},{12383,0},{12380,0},{12377,0},{12374,0},{4284,4033},{5559,4033},{4740,4097},{12401,0},{4989,4033},{12404,0},{4749,4097},{12416,0},{12413,0},{12387,4135},{4077,4033},{11899,4142},{12422,0},{12423,3848},{12440,0},{12431,0},{4980,4033},{12437,0},{4494,4097},{12443,0},{12449,0},{12452,0},{12455,0},{12458,0},{4992,4097},{12459,3393},{4290,4033},{4077,4097},{3876,4033},{12467,0},{12470,0},
{5565,4033},{12464,0},{12473,0},{12476,0},{12479,0},{3876,4097},{4989,4097},{11920,4160},{5559,4097},{12482,0},{12485,0},{12488,0},{4191,4033},{12497,0},{12500,0},{12494,0},{12491,0},{12509,0},{12506,0},{12512,0},{12503,0},{12518,0},{12515,0},{4290,4097},{12530,0},{12527,0},{12522,4173},{12533,0},{12539,0},{12536,0},{4980,4097},{12548,0},{12545,0},{12551,0},{12542,0},{12554,0},{12557,0},{12560,0},{12563,0},{12566,0},{5565,4097},{12569,0},{12572,0},{12575,0},{12578,0},{4191,4097},{12584,0},{12587,0},{12581,0},{12596,0},{12593,0},{12599,0},{12602,0},{3826,4201},{12605,0},{12608,0},{12614,0},{12611,0},{11977,3823},{11469,3992},{12623,0},{12629,0},{12630,3401},{12619,4211},{12626,0},{12647,0},{12633,4206},{12644,0},{12650,0},{12635,0},{12651,3269},{12656,0},{12657,3100},{12660,3101},{13305,3098},{12665,0},{12668,0},{12674,0},{12669,4001},{12678,3702},{12686,0},{12683,0},{12677,0},{12696,3841},{12693,3845},{5562,4236},{12705,3849},{12021,4237},{4192,4234},{12015,4233},{4725,4236},{12699,4240},{12723,2997},{12729,4242},{10389,4245},{12732,3553},{12078,4246},{12698,0},{12671,0},{12752,0},{3826,4249},{12776,0},{12774,4044},{12764,0},{12771,4256},{12126,4252},{12777,4049},{4521,4236},{11217,4251},{4533,4236},{11292,4266},{12793,3890},{12786,4263},{12755,0},{12794,0},{12099,4261},{12804,3764},{12784,4063},{12815,0},{12816,4059},{12810,3911},{12783,4275},{3727,4276},{12840,4073},{12846,4076},{12780,4278},{3715,4279},{12864,1893},{11283,4289},{12858,4287},{12857,0},{12856,4061},{12870,4083},{4287,4275},{4284,4261},{4296,4236},{12826,3935},{12878,0},{12881,0},{12809,0},{12899,0},{4515,4275},{4518,4261},{12882,4090},{12896,0},{12914,0},{12903,3948},{12908,0},{12825,4097},{4515,4261},{12318,4307},{11343,4305},{12920,0},{4749,4261},{4284,4275},{10986,4309},{12935,0},{4494,4261},{4740,4261},{4518,4275},{12939,4113},{12942,4115},{12960,3955},{12957,3067},{12956,0},{4740,4275},{12953,0},{4749,4275},{12968,0},{12971,0},{12972,4122},{12983,0},{12980,0},{4287,4261},{12990,4130},{12988,3962},{12999,4332},{4992,4261},{13004,0},{4494,4275},{13007,0},{13010,0},{13016,0},{13022,0},{12417,4342},{13031,0},{13034,0},{13041,1397},{13037,0},{5559,4261},{13045,1250},{4992,4275},{4989,4261},{13052,0},{13053,4148},{13058,0},{4989,4275},{13044,1250},{4077,4275},{13076,0},{3876,4261},{3876,4275},{4290,4261},{4077,4261},{13088,0},{5559,4275},{4980,4261},{13077,3079},{13082,0},{13085,0},{13097,0},{4290,4275},{13101,4368},{13118,0},{13115,0},{5565,4261},{4980,4275},{13112,0},{4287,4374},{13121,0},{11919,4374},{13126,1287},{13134,4379},{4284,4374},{13146,4383},{4533,4374},{13158,4387},{4749,4374},{4191,4261},{4077,4374},{13166,0},{13125,1287},{13173,3084},{5565,4275},{13170,4389},{4515,4374},{4296,4374},{13187,0},{13194,4396},{4290,4374},{3876,4374},{4518,4374},{13212,4403},{13217,0},{4191,4275},{4740,4374},{13233,4413},{12588,4409},{13232,0},{4494,4374},{4992,4374},{13254,4420},{4047,4419},{13266,4421},{5565,4374},{4989,4374},{13274,0},{13255,4202},{13275,4426},{13285,4212},{13283,0},{5559,4374},{12636,4428},{13295,0},{4191,4374},{4980,4374},{13313,0},{12879,3379},{13311,4436},{13316,0},{12879,4078},{12244,4487},{11487,4440},{11994,4441},{13331,0},{12009,4442},{12006,4442},{13338,4442},{13335,4003},{13347,4015},{13346,0},{12054,4451},{13352,0},{13361,0},{13367,0},{11572,4457},{13374,4024},{13377,3357},{13380,3027},{13383,3880},{13360,4040},{13397,0},{12765,4464},{13407,4468},{13418,0},{13424,0},{13421,0},{13398,4056},{11712,4466},{13442,0},{11622,4478},{12813,4476},{13438,4061},{13431,4060},{13445,0},{13401,4056},{13409,0},{13455,4071},{13448,0},{13460,0},{13463,0},{13370,0},{13475,0},{13467,4284},{13486,4492},{13491,3928},{13481,0},{13449,4479},{13502,0},{13496,0},{13499,0},{13505,0},{12879,4492},{13515,4300},{13527,4303},{13479,4297},{13396,4100},{13520,0},{13523,0},{13541,0},{13531,3935},{13544,0},{12312,4511},{13474,4111},{13550,0},{13559,0},{13556,0},{13530,4097},{13574,0},{13571,0},{4515,4510},{13568,0},{4287,4510},{12363,4527},{13586,0},{13592,0},{13598,0},
{13427,0},{13611,4331},{4518,4510},{13616,0},{11890,4528},{4284,4510},{13634,0},{13628,0},{13635,4339},{13653,4346},{4749,4510},{13658,0},{13664,0},{13670,0},{13666,3971},{13673,0},{4494,4510},{11913,4555},{13685,0},{13688,0},{13706,0},{13691,0},{13697,0},{13700,0},{13703,0},{13099,4572},{13712,0},{13715,0},{4077,4510},{4992,4510},{13718,0},{4740,4510},{13730,0},{13742,0},{13745,0},{13751,0},{13757,0},{13759,4377},{3876,4510},{13766,0},{13131,4586},{13781,0},{13790,0},{13784,0},{5559,4510},{13778,0},{4989,4510},{13796,0},{13802,0},{4290,4510},{13814,0},{13820,0},{4980,4510},{13817,0},{13793,0},{13829,0},{13832,0},{13827,4408},{5565,4510},{13844,0},{13840,4612},{13847,0},{13838,0},{4191,4510},{13853,0},{13850,0},{13859,0},{13862,0},{13876,1487},{13880,0},{13867,4213},{13883,0},{13868,0},{13892,0},{13875,1487},{13894,4218},{13901,0},{13896,3655},{13903,4437},{13314,4631},{13907,0},{13913,0},{13916,0},{13925,0},{13917,4447},{13920,4445},{13935,4238},{13944,1397},{13941,3852},{4192,4646},{13952,0},{13947,3860},{11623,4652},{13958,0},{12780,4657},{13968,1275},{13976,0},{13980,3914},{12186,4661},{13967,0},{12801,4659},{14003,0},{13997,0},{14012,0},{3727,4672},{12834,4671},{13992,4674},{12243,4675},{14031,1238},{14001,4496},{14039,0},{13998,4479},{13506,4685},{14049,3938},{13910,0},{14072,0},{14076,4693},{14063,0},{14075,0},{14087,0},{3826,4697},{14088,4517},{14096,0},{13988,0},{14103,4521},{14108,0},{13587,4703},{14117,0},{14118,4531},{3715,4708},{14123,0},{14128,4304},{14133,4534},{14127,4510},{4515,4709},{4287,4709},{14144,0},{14145,4543},{14150,0},{14153,0},{14154,4719},{11889,4709},{14007,4712},{4284,4709},{14048,0},{14168,0},{13059,4723},{14172,4558},{13680,4725},{14186,0},{14189,0},{4749,4709},{14196,4569},{13722,4735},{14199,4734},{14214,4739},{4494,4709},{14225,0},{14222,0},{4518,4709},{14231,0},{12462,4742},{4740,4709},{13752,4746},{13143,4747},{4077,4709},{4290,4709},{14252,0},{4992,4709},{14258,0},{14276,0},{13182,4755},{14260,4597},{14270,0},{13200,4760},{3876,4709},{14285,0},{4989,4709},{5559,4709},{14294,0},{13779,4766},{14302,4191},{4980,4709},{14309,0},{14312,0},{14313,4416},{5565,4709},{13230,4774},{12616,4775},{4191,4709},{14328,4777},{14325,4205},{14343,4432},{14341,4211},{14348,0},{13884,4783},{12639,4784},{14340,4434},{14360,0},{14367,3102},{14375,0},{14397,3856},{14421,3894},{14379,3701},{13332,4794},{14385,4229},{14391,4796},{13926,4796},{12690,4793},{14388,4446},{13929,4796},{14394,3719},{14380,3701},{14405,0},{12069,4800},{12081,4803},{14413,4251},{11217,4805},{12753,4804},{13971,4808},{12201,4809},{14432,0},{3727,4812},{14418,4673},{14453,0},{14450,0},{14460,3933},{14439,4495},{14463,4495},{12831,4814},{14471,0},{12303,4825},{14449,4819},{14037,4829},{14058,4831},{14498,0},{14082,4837},{14517,4533},{14531,0},{14525,0},{14537,0},{14505,4815},{14540,0},{14543,0},{14561,0},{14567,0},{14179,4858},{14576,0},{14583,4564},{14193,4862},{14591,0},{14606,0},{14615,0},{14610,4582},{14621,0},{14624,0},{14636,0},{14633,0},{14642,0},{14262,4881},{14655,4602},{14663,0},{14669,0},{14672,0},{14678,0},{14684,0},{14699,0},{14696,0},{14701,3980},{14705,0},{14708,0},{14700,4196},{12603,4901},{14716,4629},{14723,0},{14726,0},{14717,0},{14729,0},{14735,0},{14733,4634},{14377,4911},{14730,4989},{14747,0},{14750,0},{14759,0},{14751,3841},{14762,0},{14765,0},{14740,3991},{14769,3720},{4725,4924},{5562,4924},{14741,0},{4192,4926},{3826,4927},{14786,0},{4533,4924},{14792,0},{14789,0},{14795,0},{3715,4932},{14804,0},{14793,4673},{14442,4933},{14805,4676},{4521,4924},{14457,4937},{14808,4468},{4296,4924},{12891,4933},{14822,0},{3691,4943},{14834,0},{14862,4848},{13644,4955},{13068,4957},{14876,0},{14178,4959},{14212,4961},{14826,4856},{14819,0},{14885,0},{14889,4869},{13128,4964},{14907,4879},{14653,4971},{13197,4970},{13206,4973},{14915,0},{14925,4891},{13245,4977},{14942,0},{14944,4201},{14946,4423},{14951,0},{14954,0},{14957,0},{14947,4423},{13887,4988},{14971,4438},{14975,0},{13905,4990},{12015,4994},{14754,4995},{14991,4996},
{14766,4995},{13929,4995},{13362,4998},{15002,0},{14997,4239},{14751,4996},{14775,5000},{15008,0},{15011,0},{15016,4802},{11973,5004},{15017,0},{15020,0},{15026,0},{15030,5009},{15045,4277},{12247,5013},{15038,0},{15044,0},{15053,0},{15050,0},{12873,5013},{15062,0},{15063,4941},{15071,0},{15089,0},{14211,5033},{15092,0},{15066,5032},{14652,5040},{15113,0},{15134,0},{15137,0},{15133,4903},{14959,5048},{15144,4986},{13318,4993},{15152,0},{14979,4439},{14373,5051},{15161,0},{11509,5054},{15167,0},{15164,0},{12037,5059},{15176,0},{15173,0},{14404,5060},{15192,3870},{15191,0},{15199,5067},{15195,3876},{15203,0},{15204,4650},{12136,5069},{15175,3999},{12822,5069},{12832,5071},{11763,5070},{15221,0},{12256,5074},{14454,5075},{15218,0},{15228,3932},{15236,0},{12885,5074},{12297,5079},{15242,0},{15243,4114},{13560,5081},{15220,5018},{15251,0},{15260,0},{14709,5088},{13863,5089},{15272,0},{15278,0},{15281,0},{15287,0},{13309,5095},{15290,0},{4725,5098},{15168,5099},{13356,5100},{4725,5101},{15183,5103},{12681,5102},{15186,5099},{4521,5098},{11997,5102},{12741,5105},{12744,5108},{5562,5098},{15323,0},{15198,5109},{15332,0},{15335,0},{15337,3822},{15338,0},{15337,3653},{4521,5101},{15337,4264},{13425,5112},{13986,5112},{5562,5101},{15341,0},{15345,4281},{4296,5098},{4533,5098},{15337,4285},{15344,0},{14043,5119},{15353,0},{15354,5077},{15054,5116},{14046,5112},{12888,5120},{14817,5112},{15369,4102},{4533,5101},{15337,4293},{15372,4827},{15380,0},{15377,0},{15383,0},{4296,5101},{14898,5128},{14928,5129},{15392,0},{13873,5131},{15395,0},{15282,5133},{12654,5135},{15411,5052},{15368,0},{15416,0},{15419,0},{15422,0},{15425,0},{15428,0},{15431,0},{15434,0},{15440,0},{15437,0},{3826,5147},{15455,0},{4192,5148},{15449,0},{15465,4258},{13401,5154},{12804,5156},{14742,5153},{15473,0},{15479,0},{15465,4483},{13998,5158},{15465,4266},{15482,0},{15465,4813},{15485,0},{3715,5163},{15494,0},{15497,0},{14463,5166},{15465,4503},{15465,4822},{15515,0},{12892,5168},{14814,5169},{15512,0},{13504,5170},{15518,0},{15524,0},{3727,5173},{15530,0},{3691,5175},{14835,5177},{15534,4699},{15540,5179},{15548,0},{14248,5183},{15551,0},{15554,0},{14680,5184},{15141,5185},{15560,0},{13872,5187},{15403,5188},{15566,0},{15569,0},{13932,5192},{14394,5193},{14769,5193},{13368,5194},{15003,5193},{14388,5197},{13953,5195},{15588,4442},{13386,5198},{13962,5200},{15597,4463},{15605,0},{15456,5202},{15610,5007},{15612,3889},{15611,0},{15617,0},{15620,0},{14004,5209},{15623,0},{15638,0},{15630,4669},{15635,0},{15648,4080},{15647,0},{15642,4815},{15641,0},{15653,0},{14040,5218},{15662,0},{15657,3937},{15665,0},{14058,5226},{15668,0},{15363,5223},{14074,5230},{14826,5228},{4533,5227},{15692,0},{15066,5229},{15674,0},{15698,0},{12936,5231},{4521,5227},{14838,5226},{12949,5234},{15701,0},{15704,0},{14094,5232},{15708,4132},{4725,5227},{4296,5227},{5562,5227},{15713,0},{14247,5238},{14679,5239},{15722,0},{15725,0},{15731,0},{15734,0},{15402,5245},{3727,5265},{13909,5274},{3727,5256},{3826,5247},{15746,0},{15752,0},{15749,0},{15755,0},{12007,5252},{12013,5254},{3826,5253},{10657,5248},{11524,5255},{12004,5257},{13966,5258},{13413,5261},{15781,5259},{15779,0},{15786,4928},{14433,5258},{15806,0},{13482,5270},{15818,0},{3691,5275},{13524,5277},{14478,5274},{15845,0},{15839,0},{15851,0},{14490,5285},{15854,0},{15867,4526},{15872,0},{15864,4834},{15875,0},{15860,0},{12948,5294},{15887,0},{15878,0},{13623,5296},{15893,0},{15896,0},{15899,0},{15905,0},{15908,0},{15913,4906},{14718,5304},{15923,0},{15935,0},{10656,5312},{11145,5314},{15940,3866},{13959,5315},{13380,5315},{15956,0},{15939,3866},{15949,3822},{15952,3822},{15962,0},{15959,0},{11638,5316},{11638,5317},{15932,0},{15964,3822},{14418,5313},{15964,3653},{15949,4264},{15968,0},{12807,5321},{15964,4264},{15952,3653},{15949,3653},{15974,0},{15780,5325},{4192,5323},{12780,5313},{15789,5321},{15980,0},{15983,0},{15952,4264},{13470,5313},{15926,0},{15964,4285},{4192,5329},{15929,0},{15952,4285},{15949,4285},{15995,0},{15949,4293},
{15952,4293},{3715,5332},{16001,0},{15958,4285},{16005,4694},{15964,4293},{15846,5334},{14743,5310},{16013,0},{14100,5338},{16025,0},{3715,5339},{15958,4293},{15961,4293},{16020,4704},{16003,5282},{14815,5331},{14844,5342},{16034,0},{15965,0},{15951,4503},{3691,5347},{15948,4503},{16044,4727},{16047,4736},{16050,4745},{14685,5352},{16061,0},{16064,0},{15312,5356},{16073,0},{16076,0},{4725,5359},{16085,0},{16082,0},{16091,0},{16097,0},{16094,0},{4521,5359},{12103,5366},{12103,5367},{16106,0},{16113,4466},{16110,5153},{16109,0},{16119,4266},{16124,0},{12169,5366},{16118,0},{16110,5375},{13401,5371},{16139,0},{14742,5370},{11293,5366},{13998,5377},{16148,0},{12169,5367},{16145,0},{16131,4483},{16136,0},{16129,4663},{16371,5155},{16129,5458},{11293,5367},{16152,4265},{15339,5375},{12804,5373},{16151,0},{16163,0},{15313,5356},{16166,0},{16170,4813},{5562,5359},{16175,0},{13438,5366},{15366,5392},{13438,5367},{15675,5392},{16184,0},{16181,0},{13486,5366},{4533,5359},{16190,0},{16196,0},{14463,5390},{16193,0},{16206,4822},{14086,5401},{16200,4813},{16211,0},{14835,5402},{16213,4947},{16218,4836},{16214,0},{15705,5407},{16227,4822},{14514,5411},{14835,5410},{16225,5181},{16226,0},{14463,5400},{16244,0},{16241,0},{16230,4822},{14835,5409},{13608,5415},{14530,5414},{14814,5395},{14523,5413},{4296,5359},{16248,4503},{16098,4503},{16256,0},{16101,4503},{14580,5420},{14595,5421},{14625,5422},{14317,5423},{16271,0},{14961,5425},{15334,5449},{16280,0},{11157,5427},{16289,0},{11160,5428},{11652,5431},{10935,5430},{16296,4257},{16299,4466},{13401,5434},{16311,3904},{12795,5436},{16307,0},{16319,0},{16323,3904},{12795,5438},{16320,4914},{12795,5437},{13401,5433},{16308,3904},{12795,5441},{16328,0},{16302,4466},{16329,4483},{16338,5208},{16335,4664},{16332,4466},{13401,5453},{16355,0},{16377,5438},{16368,4266},{16343,0},{12804,5456},{16344,4266},{16155,5454},{15343,5452},{16350,4266},{12804,5448},{16367,0},{16385,0},{16380,4266},{16388,0},{12804,5450},{13407,5464},{16391,0},{13998,5443},{16395,4483},{16359,4466},{13401,5444},{15057,5467},{15501,5452},{16406,0},{15673,5470},{16409,0},{12804,5460},{13998,5473},{13998,5471},{16419,4483},{13998,5465},{16413,4483},{16422,5395},{16418,0},{16428,4813},{14463,5475},{16436,0},{16425,4813},{14463,5476},{16431,4813},{16445,0},{14835,5479},{16446,4822},{14463,5477},{14833,5480},{16437,4822},{15861,5470},{16215,5486},{16457,0},{16463,0},{16451,0},{4521,5484},{4533,5484},{3715,5489},{16466,0},{15072,5480},{16470,4947},{16475,0},{16488,5181},{16487,0},{16484,0},{16478,0},{3727,5493},{14835,5482},{16493,0},{16502,0},{16497,4951},{14850,5498},{13621,5502},{4521,5503},{16505,0},{15352,5504},{16508,0},{4533,5503},{16520,0},{16517,0},{4725,5484},{3826,5511},{4296,5484},{4725,5503},{3691,5512},{4296,5503},{4192,5513},{5562,5484},{5562,5503},{16544,0},{14316,5515},{15148,5516},{16550,0},{16512,5169},{15318,5518},{10609,5519},{10366,5521},{16560,4253},{9082,5523},{16568,0},{11650,5524},{16580,0},{16577,0},{7321,5522},{16586,0},{16583,0},{16587,4273},{16604,0},{16595,0},{16598,0},{16590,5264},{16601,0},{16622,0},{16613,0},{16610,0},{16625,0},{16614,5266},{16631,0},{16619,0},{16626,5011},{16607,0},{16649,0},{16661,0},{16664,0},{16665,5267},{16643,0},{16657,5551},{16640,0},{16634,0},{16652,0},{16553,0},{16673,0},{16679,0},{16658,0},{16655,0},{12193,5560},{15925,5517},{16688,0},{16691,0},{16697,0},{16694,0},{16703,0},{12751,5566},{16704,5276},{16710,4308},{16715,0},{16733,0},{16197,5578},{16721,0},{16718,0},{16724,0},{16709,0},{16730,0},{16727,0},{16742,0},{16748,0},{12945,5581},{16751,0},{16754,0},{16739,0},{16772,0},{16760,0},{16769,0},{16763,0},{16766,0},{16775,0},{16778,0},{16790,0},{16785,5293},{16802,0},{16793,0},{16796,0},{16805,0},{16818,5605},{16823,0},{16826,0},{16035,5602},{16838,0},{16835,0},{16844,0},{13620,5617},{16850,0},{16465,5592},{16856,0},{16857,4341},{16841,0},{16254,5616},{16865,0},{16868,0},{16877,0},{16874,0},{16871,0},{16883,0},{16880,0},{16886,0},{16889,0},{16895,0},{16898,0},{15147,5633},
{16811,0},{16904,0},{17043,5680},{17223,5191},{15322,5635},{16907,0},{16910,0},{13410,5638},{16913,0},{16919,0},{7320,5640},{4725,5641},{16934,0},{16929,5642},{16938,5645},{16941,4484},{4521,5641},{16947,5650},{16955,0},{16956,5162},{16974,5661},{16959,5545},{16973,0},{13447,5660},{16977,5548},{16968,5386},{16965,5654},{16167,5671},{16998,5664},{16933,3822},{17010,5561},{16997,0},{16989,5662},{17004,5556},{17022,5675},{4725,5676},{4521,5676},{17016,5673},{17037,5678},{4521,5683},{16918,4264},{16933,4264},{13545,5685},{17079,5694},{16912,4264},{4725,5683},{16912,4285},{16933,3653},{17064,5687},{17073,5689},{16909,4285},{17097,5698},{17091,4525},{5562,5641},{17100,5695},{17088,5585},{17112,5702},{16779,5705},{17054,0},{17103,5594},{16909,4293},{16918,4285},{4533,5676},{4533,5641},{17124,4710},{16797,5707},{16912,4293},{17129,0},{14526,5711},{4533,5683},{5562,5676},{17153,0},{16830,5716},{17144,0},{16933,4285},{14856,5718},{17160,4546},{4296,5676},{14553,5724},{17166,5509},{17165,0},{13647,5725},{4296,5641},{16918,4293},{5562,5683},{17183,0},{16933,4293},{16908,4503},{4296,5683},{17184,4730},{16911,4503},{17196,4744},{17193,4579},{17202,4595},{17205,4759},{17208,4608},{14934,5737},{17219,0},{15450,5745},{17232,5362},{12103,5746},{3826,5747},{12169,5748},{12169,5746},{12103,5748},{17252,0},{12103,5749},{17261,0},{12103,5752},{17255,0},{3727,5755},{15967,5759},{17275,5757},{17270,0},{15820,5766},{17285,0},{17294,0},{17300,0},{4533,5763},{17295,5558},{12169,5749},{17307,4466},{17264,0},{17312,0},{11293,5746},{17273,0},{11293,5748},{17321,0},{17314,5768},{11293,5749},{13401,5769},{17327,0},{17282,0},{13438,5746},{17324,0},{17318,0},{4521,5763},{17330,0},{17306,0},{17228,0},{17233,5362},{17339,0},{17343,4483},{13998,5780},{4192,5782},{17336,0},{17369,0},{17360,0},{17366,0},{17357,0},{17354,0},{17372,0},{12804,5787},{17333,0},{17143,5796},{17381,0},{17387,0},{17351,0},{3715,5792},{17340,4483},{17361,4266},{13998,5781},{17384,0},{17393,0},{14847,5804},{17403,4813},{17420,0},{17402,0},{17411,0},{17408,0},{17417,0},{17424,4844},{4725,5763},{17429,0},{17390,0},{17432,0},{17157,5811},{17447,0},{17303,0},{17442,4813},{14463,5801},{17399,0},{17375,0},{17438,0},{15075,5816},{17459,0},{17454,5026},{13650,5820},{14463,5814},{17453,0},{14149,5815},{17468,0},{3691,5821},{17469,4822},{15928,5743},{17474,0},{14835,5823},{17478,4822},{4296,5763},{17365,5589},{17486,0},{5562,5763},{14880,5829},{14835,5826},{17247,4503},{15102,5832},{14895,5831},{15108,5833},{17256,4503},{14916,5834},{15123,5835},{14941,5836},{17510,0},{17516,0},{17519,0},{17522,0},{17528,0},{17534,0},{17531,0},{17525,0},{17538,3904},{17535,2805},{12795,5846},{17542,5754},{17544,3904},{17547,4283},{17552,0},{14034,5853},{15816,5852},{17562,5856},{12795,5848},{17563,5764},{13401,5860},{17566,5772},{17558,0},{15639,5857},{17576,0},{16399,5859},{17600,0},{17594,0},{17541,5862},{17580,4466},{17274,5865},{17585,0},{17579,0},{17606,0},{17631,4098},{17313,5878},{17565,5875},{17612,0},{17613,4095},{17621,0},{17607,4266},{17046,5874},{17630,0},{17642,0},{17643,4310},{17648,0},{17651,0},{17654,0},{17667,4321},{17661,4813},{14463,5891},{13998,5890},{17678,0},{12804,5869},{17109,5888},{17705,0},{17696,0},{17670,4483},{17702,0},{17699,0},{17673,4813},{17685,4325},{14463,5887},{17710,5796},{17727,4131},{17730,5713},{14835,5907},{17718,4822},{17724,4328},{17721,4822},{17717,0},{3727,5904},{17388,5903},{3715,5911},{17738,0},{17739,4337},{17439,5914},{17745,4136},{17750,0},{14550,5917},{17762,0},{17759,0},{3727,5924},{3715,5926},{17787,4144},{17786,0},{17783,0},{13036,5927},{4533,5930},{14835,5906},{17798,0},{17793,4349},{17801,0},{17805,4354},{17804,0},{17813,0},{17810,0},{17819,0},{17816,0},{17825,0},{17820,4364},{17831,0},{3826,5942},{4521,5930},{3691,5946},{3826,5945},{4725,5930},{4296,5930},{3691,5947},{4192,5949},{4192,5950},{5562,5930},{15129,5952},{18053,0},{17883,1587},{17859,5954},{17865,3904},{17868,4466},{12795,5957},{13401,5958},{17874,4466},{17885,0},{17882,0},{17888,0},{17894,0},
{17890,5657},{17891,0},{13464,5965},{17554,5966},{17871,3904},{12795,5955},{17553,5966},{17906,0},{3727,5967},{17922,5330},{13401,5956},{17909,0},{17928,4684},{17915,0},{17912,0},{17918,0},{17927,0},{17921,0},{17933,0},{16398,5984},{17945,0},{12804,5979},{17937,4266},{17934,4266},{17948,0},{12804,5978},{17973,4483},{17982,4512},{14067,5986},{17966,0},{14064,5990},{16708,5993},{17963,0},{17978,0},{17981,0},{14499,5996},{17991,5998},{15877,5999},{18020,0},{18008,0},{18005,0},{14520,6000},{13998,5991},{18011,0},{18017,0},{18029,0},{16237,6008},{13605,6013},{18038,0},{18044,0},{16236,6008},{16038,5999},{13617,6020},{18056,0},{18059,0},{18071,0},{14139,6016},{18065,0},{18077,0},{18074,0},{18078,4547},{14547,6027},{18086,0},{18090,5620},{14160,6029},{18095,0},{18099,6032},{18104,0},{13659,6038},{18107,0},{14163,6036},{13677,6043},{18125,0},{18122,0},{17802,6042},{14577,6045},{17796,6046},{18141,6048},{18150,4573},{14592,6052},{18153,4575},{18164,0},{18167,0},{18173,0},{18170,0},{18176,0},{18179,0},{18182,0},{18185,0},{18188,0},{18191,0},{18194,0},{18203,0},{15973,6067},{18206,0},{18212,0},{18215,0},{18209,0},{18218,0},{18220,1513},{18228,6075},{3826,6079},{11638,6066},{18231,5328},{18234,5762},{18245,0},{17301,6080},{18240,5677},{18248,0},{17601,6084},{18251,0},{18257,0},{18267,4824},{18263,0},{18270,5865},{17949,6092},{18264,6093},{18260,0},{18232,5268},{17913,6101},{18299,0},{18302,0},{18296,0},{18256,6095},{18199,3822},{18290,0},{18308,0},{14484,6104},{18311,0},{3826,6107},{3727,6105},{18199,3653},{17076,6111},{3727,6112},{18341,0},{18359,0},{18344,0},{17130,6115},{18030,6121},{18351,6116},{3826,6118},{18033,6120},{18369,5604},{16809,6123},{4192,6124},{18375,5609},{18386,0},{18066,6126},{18383,0},{18199,4264},{18402,5615},{3715,6133},{3715,6129},{18393,6130},{18195,5677},{18196,5677},{14556,6137},{3715,6138},{4192,6141},{18422,0},{18199,4285},{14868,6142},{3691,6147},{18437,0},{18132,6149},{14571,6150},{3691,6148},{18455,0},{4192,6152},{18461,0},{18431,0},{14598,6155},{18464,0},{3691,6156},{14601,6157},{18477,4872},{18199,4293},{18486,4882},{18489,4888},{18501,4896},{15138,6168},{18546,6185},{18510,5959},{16140,6169},{18513,5648},{18522,6173},{18222,6172},{11638,6176},{18529,3822},{18525,5669},{18542,0},{18545,0},{18536,0},{12795,6179},{18552,6065},{18537,3904},{18551,0},{18564,6095},{18560,0},{18581,0},{3715,6189},{18587,0},{18578,0},{18291,6190},{18573,5758},{18579,6195},{18590,0},{18330,6203},{18594,6199},{18602,0},{18529,3653},{18591,5686},{13401,6201},{3727,6204},{18615,5690},{18622,5995},{18623,0},{18620,0},{18529,4264},{18624,4266},{18629,0},{18533,0},{18511,5959},{18632,0},{12804,6208},{18634,5894},{18603,4466},{18650,0},{18046,6215},{18644,0},{18653,0},{18647,0},{18366,6212},{18665,0},{18662,0},{18656,0},{18668,0},{18678,4483},{18633,5894},{18686,0},{18695,0},{18529,4285},{18692,0},{18689,0},{18704,0},{3826,6233},{18674,0},{13998,6226},{18708,5925},{18683,0},{18707,0},{18711,4813},{18716,0},{18719,0},{16486,6214},{18726,5027},{18529,4293},{18731,0},{18737,0},{18725,0},{12451,6238},{14463,6237},{3691,6248},{4192,6251},{18752,0},{15105,6252},{18759,4822},{15114,6254},{15117,6255},{18528,4503},{14835,6253},{15126,6256},{15271,6257},{18773,0},{18782,0},{18779,0},{15808,6261},{18788,0},{15814,6263},{18794,0},{18797,0},{18812,0},{18804,6267},{17227,6258},{18785,0},{18791,0},{18800,0},{18815,0},{18561,6273},{18776,0},{18818,0},{18582,6275},{18824,0},{18828,6278},{18833,0},{18845,0},{18842,0},{18869,0},{18863,0},{18887,0},{18857,0},{18879,5880},{18872,0},{17118,6297},{18866,0},{18890,0},{18897,6300},{18898,6300},{18905,0},{18911,0},{18045,6308},{18875,0},{18917,0},{18929,0},{18657,6306},{18854,0},{18933,6225},{16840,6310},{18947,0},{18944,0},{18697,6316},{18696,6316},{18956,0},{18951,5918},{17169,6320},{17170,6320},{17178,6310},{18968,0},{18117,6327},{18974,0},{18977,0},{18986,0},{18118,6327},{13065,6329},{18993,6330},{17817,6334},{19001,0},{3715,6332},{4533,6337},{18995,0},{19016,0},{19019,0},{19022,0},{4521,6337},{3727,6342},
{4296,6337},{19031,0},{4725,6337},{3826,6344},{3691,6345},{19040,0},{19043,0},{19041,4293},{4192,6348},{5562,6337},{15396,6350},{16812,6306},{19053,6352},{19060,5760},{19068,3904},{19066,6266},{19063,6177},{19071,4466},{12795,6356},{19079,0},{19059,5872},{19074,4504},{17955,6360},{19065,6363},{15633,6361},{15645,6362},{17637,6366},{19095,6364},{17605,6360},{18606,6369},{19106,0},{19112,0},{12804,6375},{19125,4266},{19122,4835},{19136,0},{19062,6298},{19128,4483},{13401,6357},{18343,6380},{19142,0},{19155,4712},{13998,6376},{19175,0},{19163,0},{19151,0},{18417,6395},{19193,0},{18241,6400},{19184,0},{19196,0},{19205,0},{19197,4813},{19211,0},{14463,6399},{19218,4856},{19217,0},{19221,5825},{19232,0},{19235,0},{19244,0},{19238,0},{19239,4822},{19247,0},{18717,6416},{19251,5032},{19262,0},{14835,6413},{19268,0},{19265,0},{19274,0},{19277,0},{19280,0},{19282,6347},{19038,6428},{19292,0},{19295,0},{19298,0},{19301,0},{17002,6434},{19307,0},{19304,0},{19315,5777},{19310,0},{19313,0},{19319,0},{19322,0},{19334,0},{19340,0},{19328,0},{19343,0},{19337,0},{15835,6443},{19349,0},{18601,6449},{19352,0},{19351,5283},{19355,0},{18849,6452},{19316,0},{18877,6451},{19370,0},{19367,0},{19364,0},{19379,0},{19382,0},{18639,6462},{19331,0},{18408,6466},{19394,0},{19179,6465},{18958,6463},{19419,6472},{19424,0},{19407,6472},{19411,6321},{19406,0},{19412,0},{19391,0},{19430,0},{18720,6478},{19439,0},{13071,6480},{19443,6049},{19454,0},{19443,6483},{19460,0},{14886,6485},{19433,0},{19464,4967},{19469,0},{19470,4968},{19476,4974},{19463,0},{19490,0},{19494,4979},{19500,5740},{19505,0},{17590,6502},{17001,6503},{19515,6091},{19513,5778},{18282,6506},{19101,6508},{17920,6506},{19506,5863},{19521,5989},{19536,6513},{19530,6511},{19527,6109},{19326,6518},{19551,5336},{19548,6371},{18858,6515},{19338,6518},{19562,0},{18876,6519},{19512,5885},{19563,5893},{19146,6525},{19570,5796},{19572,6004},{19568,0},{19578,6007},{19158,6527},{19586,0},{17388,6523},{15663,6529},{19598,0},{19188,6531},{19592,0},{19605,6037},{19613,0},{19610,0},{19601,0},{19224,6541},{18957,6540},{19617,6321},{19628,0},{19549,6371},{18732,6543},{19634,0},{14875,6542},{19675,6123},{19635,6243},{19597,6402},{19638,6053},{19647,4577},{12466,6544},{13761,6551},{19269,6552},{13797,6553},{13821,6554},{13854,6557},{18807,6559},{19681,5980},{19685,0},{15841,6562},{17940,6560},{19690,5684},{19694,0},{18838,6565},{19543,6568},{19703,0},{19699,6448},{19715,0},{19688,0},{19700,0},{19709,0},{19555,6570},{19721,0},{19724,0},{19727,0},{19718,0},{18535,6559},{19736,0},{19691,0},{19730,0},{19697,0},{19739,0},{19742,0},{19747,6583},{18907,6581},{19751,0},{19757,0},{19760,0},{19706,0},{18916,6586},{19766,0},{19745,0},{18669,6587},{19769,0},{19206,6590},{19600,6591},{19775,0},{19782,6595},{19781,0},{19796,0},{19793,0},{19799,0},{19808,0},{15084,6600},{19813,6335},{13089,6603},{19812,6335},{19817,0},{19820,0},{19826,0},{19823,0},{3715,6609},{4521,6610},{4533,6610},{3727,6611},{4296,6610},{19838,0},{3691,6613},{3826,6614},{4725,6610},{4192,6615},{5562,6610},{19850,0},{19851,6441},{19864,5286},{19858,6280},{18318,6622},{19862,0},{19853,0},{19880,0},{19873,6284},{19870,6285},{19871,0},{19857,6373},{19344,6629},{15666,6628},{19909,6379},{19905,6632},{19899,6634},{19910,0},{19879,6571},{19895,0},{19863,5343},{19914,5798},{18837,6640},{19371,6637},{19926,6641},{19934,0},{19930,6218},{19939,6463},{19874,0},{19746,6645},{19931,0},{19542,6648},{19947,6390},{19948,6309},{19167,6647},{18906,6651},{19183,6652},{19958,0},{19964,0},{19966,6143},{19389,6646},{19975,6477},{19788,6656},{19981,6477},{19431,6658},{19965,6247},{19991,0},{19986,6246},{19997,0},{20000,0},{20003,0},{19980,6550},{19644,6668},{20010,6418},{20012,0},{20001,6341},{20008,6487},{20015,0},{20021,0},{20018,0},{20024,0},{20027,0},{20029,6487},{19461,6669},{20033,0},{20028,6555},{20036,0},{20039,0},{20042,0},{20045,0},{19854,6682},{20051,0},{20056,6288},{20054,0},{20053,6569},{20060,0},{20061,6625},{19077,6688},{20071,6291},{20074,5789},{19881,6689},
{20084,0},{20057,0},{20073,5886},{20076,6377},{20081,0},{20087,0},{20090,0},{20091,6639},{19567,6698},{20096,0},{20117,0},{20111,0},{20108,0},{20097,6379},{20102,0},{20125,6222},{18913,6707},{19153,6705},{20120,0},{20136,6312},{20124,6313},{20128,6224},{20135,0},{20070,6388},{20130,6392},{20141,0},{18912,6707},{20146,5507},{20150,0},{20144,0},{20147,0},{20153,0},{20127,6323},{19413,6719},{20168,0},{20164,5510},{19602,6720},{20165,0},{20174,0},{20170,6241},{20169,6336},{20176,6154},{19419,6720},{20183,0},{20180,0},{20189,0},{15246,6728},{13107,6730},{20177,0},{18750,6732},{20201,0},{20215,5944},{20213,0},{20207,0},{19017,6736},{20223,4385},{13152,6740},{17832,6738},{20229,4397},{20237,0},{20233,5948},{20234,0},{20243,0},{20247,4412},{20253,4429},{20322,6775},{18325,6752},{20259,6372},{20258,0},{18846,6753},{20268,6757},{20265,6630},{20274,6631},{20263,5783},{20279,0},{20288,0},{20281,5791},{20284,5794},{20276,0},{20297,0},{20304,6767},{20300,0},{20292,6381},{20262,5897},{20285,0},{20269,6686},{20312,0},{19152,6769},{17136,6771},{19752,6772},{19149,6769},{20310,6777},{20330,0},{19152,6773},{20342,0},{20338,5417},{20335,5812},{20351,0},{20348,0},{20353,6227},{19950,6785},{20363,0},{20360,0},{19959,6788},{20373,6792},{20371,3879},{20372,0},{20282,0},{20336,0},{20369,0},{16521,6793},{16251,6779},{20354,0},{20387,0},{20390,0},{20399,0},{20395,4854},{20407,5827},{20400,5367},{19977,6801},{20408,0},{20396,0},{20417,0},{20315,0},{20411,0},{20413,5830},{19641,6808},{15091,6809},{20433,6249},{20432,0},{13117,6810},{17490,6804},{20429,0},{20438,0},{20453,0},{20457,4591},{13767,6818},{20462,0},{13809,6821},{20470,5085},{20472,5752},{20471,0},{13833,6826},{13869,6827},{4192,6906},{20489,0},{18324,6831},{20490,6453},{20498,0},{20504,0},{20501,0},{20510,0},{20509,5795},{20507,0},{20521,5709},{20518,5799},{20289,6838},{20523,6701},{20537,0},{20540,0},{20544,6763},{20532,6842},{20541,5902},{20520,5807},{20546,0},{20531,0},{20561,0},{20558,0},{20555,0},{20550,6773},{20100,6849},{20486,0},{20564,0},{20575,4953},{20578,5419},{20570,0},{20592,6865},{20587,5508},{20583,6860},{20600,0},{16257,6859},{20606,0},{20591,0},{20613,5923},{20610,5922},{20517,5921},{11637,6869},{20382,6872},{20605,6866},{20603,0},{14859,6858},{20621,0},{20624,0},{16524,6862},{20625,6326},{20391,6876},{19425,6877},{19971,6878},{20643,4503},{20648,0},{20642,0},{20639,0},{14562,6884},{17481,6883},{20641,6882},{16795,6886},{20665,5031},{20421,6887},{20656,6469},{20669,0},{20672,0},{4533,6893},{15093,6888},{19191,6885},{20675,0},{13734,6892},{20684,0},{15252,6895},{19257,6890},{4296,6893},{3715,6898},{3727,6899},{4521,6893},{3691,6901},{20466,6900},{20709,4503},{20708,0},{15255,6904},{4725,6893},{3826,6905},{5562,6893},{18882,6908},{20729,0},{20730,6577},{20733,6837},{19374,6915},{20742,5896},{20736,6913},{18619,6908},{20755,6704},{20746,6458},{20752,4293},{20759,0},{20753,0},{20763,6922},{20769,6838},{20780,0},{20777,0},{20762,0},{20774,0},{20787,6855},{20798,0},{20793,6930},{20801,0},{20814,6467},{20812,6530},{20809,6863},{20825,0},{20821,6468},{20756,0},{20819,0},{20861,0},{20852,0},{20843,0},{20846,0},{20811,6592},{20849,0},{20840,0},{20831,0},{20808,6945},{20832,6942},{20854,6939},{20873,0},{20870,0},{20820,6538},{20638,6958},{19228,6959},{20882,0},{20879,0},{20876,0},{20885,0},{20889,6962},{20897,0},{20900,0},{20908,6970},{20915,0},{20912,0},{20913,5625},{20202,6972},{19021,6973},{20927,0},{20439,6977},{20924,0},{20936,0},{20930,0},{20945,0},{20942,0},{20948,0},{20951,0},{20957,0},{20954,0},{20707,6987},{20960,0},{20963,0},{20966,0},{20972,0},{20975,0},{20978,0},{20981,0},{20723,0},{21010,6706},{20984,0},{20991,6916},{20990,0},{20999,0},{20996,0},{21002,0},{21018,4503},{21012,6928},{21013,6843},{21015,6927},{21005,0},{21008,0},{21026,0},{21023,0},{21004,5715},{21030,7009},{20341,7015},{21047,0},{21039,7014},{21009,6781},{21059,0},{21056,0},{20089,7017},{20853,7023},{20112,7022},{21065,0},{21086,0},{20865,7024},{21098,0},{21090,7031},{21101,0},{21078,7027},{20862,7029},
{21104,0},{21113,0},{21105,7036},{21119,0},{19983,7040},{19227,7041},{20892,7042},{21134,0},{20418,7043},{21143,0},{17190,7048},{20907,7049},{21155,0},{21152,0},{20937,7053},{20443,7054},{21165,4380},{21171,6472},{14244,7056},{21177,7058},{21158,0},{21120,6161},{18480,7052},{13179,7060},{21164,0},{21186,4401},{20967,7066},{20475,7067},{21207,4414},{21213,4430},{20985,7074},{20485,7073},{21225,7076},{21231,7078},{21221,0},{21248,0},{21251,0},{21242,0},{21245,0},{21037,7085},{21247,7007},{21252,5715},{21264,5607},{20805,7086},{18405,7090},{20571,7091},{21281,0},{20856,7095},{21060,7094},{21269,0},{21036,7085},{21076,7099},{21061,7094},{20857,7095},{21293,0},{21296,0},{21103,7105},{21075,7099},{21320,0},{21311,0},{21317,0},{21305,0},{21278,0},{21266,0},{21115,7109},{21338,0},{21335,0},{21336,6664},{21329,0},{19992,7110},{21341,0},{20902,7115},{21138,7114},{21272,0},{21347,0},{21353,0},{20445,7119},{21360,6896},{21376,4160},{21356,0},{21367,7121},{21369,4876},{21377,0},{21372,6537},{21380,0},{18171,7127},{15712,7126},{21389,0},{21390,4883},{21365,0},{21368,0},{21396,4886},{20442,7131},{21401,0},{21404,0},{19486,7134},{14691,7135},{14712,7136},{19384,7137},{21414,7079},{21413,0},{21416,0},{21419,0},{21422,0},{21446,0},{21432,7145},{21439,7089},{21423,6934},{21426,7087},{21449,0},{21442,7140},{21455,0},{21458,0},{21464,0},{21467,0},{21473,0},{21438,7156},{21312,7161},{21481,7106},{21475,7101},{21478,7103},{21494,0},{21477,7166},{21474,7168},{21480,7165},{21321,7167},{21508,7170},{21515,0},{21507,7170},{21114,7175},{21524,0},{21135,7177},{21539,0},{21536,0},{20901,7181},{18076,7180},{21546,6816},{21142,7179},{4533,7185},{21552,6897},{21551,0},{3715,7188},{21572,0},{13770,7189},{21580,5733},{15900,7191},{21578,0},{21579,5733},{13803,7189},{3691,7195},{21591,7196},{4296,7185},{4521,7185},{21599,0},{3727,7198},{21567,4374},{21204,7200},{21608,0},{19485,7201},{3826,7203},{4725,7185},{5562,7185},{4192,7204},{21617,0},{21620,0},{19383,7207},{21627,7011},{21000,7208},{21441,7210},{21276,7211},{21647,0},{21638,0},{21644,0},{21641,0},{21653,0},{21654,7219},{21486,7222},{21306,7221},{21300,7220},{21671,0},{21680,0},{21677,0},{21683,0},{21674,0},{21324,7228},{21692,0},{21695,0},{21689,0},{21698,0},{21707,0},{21710,0},{21711,6731},{21535,7238},{21716,0},{21348,7239},{21725,0},{21731,0},{21737,0},{21738,7247},{21384,7249},{21746,0},{21747,7040},{21752,0},{21759,7251},{21758,0},{21767,0},{21764,0},{21770,0},{21773,0},{21779,0},{21785,0},{21776,0},{4521,7262},{21791,0},{21607,7263},{21797,0},{21800,0},{21803,0},{21786,1854},{4725,7262},{21806,0},{21808,5424},{21809,0},{18652,7270},{18921,7270},{21819,7016},{21824,0},{21818,0},{21813,7143},{21827,0},{21459,7279},{21835,7280},{21830,0},{21289,7282},{21848,0},{21834,7280},{21851,0},{21854,0},{21490,7283},{21857,0},{21870,7288},{21875,0},{21871,7288},{21888,7211},{21720,7300},{21905,0},{21360,7303},{21912,4751},{21917,0},{14271,7309},{21896,0},{21926,0},{21920,0},{16053,7311},{14286,7312},{21780,7315},{14295,7318},{21948,4763},{21959,0},{21792,7320},{21966,6556},{14319,7324},{21977,0},{21980,0},{14355,7327},{21987,5353},{21991,6132},{21995,0},{21450,7333},{21998,0},{22007,0},{21831,7336},{21992,0},{22013,0},{21652,7337},{22022,0},{21288,7341},{22028,0},{22032,7287},{22038,7289},{22037,0},{21489,7343},{22043,0},{22045,7234},{22039,7289},{22033,7287},{22044,7234},{22055,0},{21558,7352},{22061,0},{22062,4392},{18168,7358},{21930,7357},{3715,7356},{15112,7360},{3691,7361},{21193,7362},{22082,0},{22089,4406},{22092,4407},{22088,0},{14304,7365},{22100,0},{22103,0},{22104,4417},{14334,7369},{14337,7370},{22113,4433},{22118,0},{21562,7395},{22121,0},{22002,7374},{21999,7377},{22125,7376},{22015,7378},{22137,6132},{21843,7380},{22136,0},{22145,0},{21450,7376},{18438,7382},{22151,0},{21858,7384},{22157,0},{22166,0},{22160,0},{21879,7389},{22181,0},{22120,7350},{18106,7382},{21906,7394},{22187,0},{22188,7355},{3715,7397},{22199,0},{22202,0},{22196,0},{22205,0},{22208,0},{18495,7401},{15261,7404},{22211,0},
{3727,7406},{3691,7405},{21192,7407},{3727,7408},{3826,7411},{4192,7412},{3826,7413},{4192,7414},{22036,7429},{22251,7216},{20155,7418},{22262,0},{22259,0},{22268,0},{22256,0},{22265,0},{22014,7424},{22280,0},{22283,0},{22289,0},{21882,7432},{21885,7431},{21876,7430},{22174,7433},{22301,0},{21891,7434},{22310,0},{21733,7437},{22250,0},{22313,0},{21561,7438},{22317,7359},{22323,7313},{18184,7444},{22322,0},{22340,0},{22343,0},{22352,0},{22349,0},{22355,0},{22358,0},{22364,0},{22361,0},{22367,0},{22370,0},{22363,5242},{22271,0},{22374,7339},{22379,0},{22380,7461},{20154,7463},{22275,7461},{22269,7464},{22397,0},{22143,7464},{22005,7466},{22401,7428},{22161,7468},{22048,7470},{22412,0},{22409,0},{22171,7471},{22418,0},{22415,0},{22173,7473},{22177,7469},{21898,7474},{22424,0},{22430,0},{21732,7478},{22439,0},{22442,0},{22455,7484},{22470,5242},{17214,7493},{16897,7493},{22484,0},{22496,0},{18967,7497},{22490,0},{19212,7497},{22500,7460},{22505,0},{22499,0},{22509,7333},{22514,0},{22509,7457},{21700,7505},{22517,0},{22520,0},{22047,7508},{22176,7509},{22523,0},{22532,0},{22170,7512},{22541,0},{22544,0},{22547,0},{21897,7516},{22431,7517},{22554,7477},{22329,7520},{15721,7521},{22565,0},{22568,0},{22571,0},{22574,0},{22556,0},{22386,7528},{22582,6144},{22578,7381},{22589,0},{22583,0},{22506,7531},{22592,0},{22602,7333},{22599,7457},{22610,0},{21699,7537},{22623,7511},{22620,7542},{22617,7511},{22631,0},{22635,7542},{22643,0},{22649,0},{22641,7548},{22652,0},{15909,7552},{22653,6166},{22654,6166},{15915,7553},{17511,7554},{22509,7526},{22622,0},{22619,0},{22673,0},{22676,0},{22683,6144},{22679,0},{22596,7560},{22688,0},{22605,7564},{22695,7534},{19446,7566},{22703,0},{22709,0},{22712,0},{22716,7546},{22675,7557},{19243,7566},{22727,0},{22722,7519},{22733,0},{22736,0},{22743,7494},{15274,7580},{22742,0},{22745,0},{22748,0},{22686,7608},{22758,7585},{22689,7588},{21118,7589},{22763,0},{22769,0},{22371,7590},{22775,0},{22778,0},{22781,0},{22785,7571},{22788,7544},{22644,7597},{22799,0},{22803,7600},{22806,7603},{22814,0},{22817,0},{15273,7606},{22575,7607},{22822,7525},{22764,7495},{22891,7421},{22832,0},{19804,7611},{21330,7614},{22838,0},{22835,0},{22847,0},{17187,7612},{21528,7614},{22614,7616},{22854,7594},{22828,7457},{22859,0},{16543,7624},{22874,0},{22878,7625},{22883,0},{22886,0},{20905,7631},{22839,7632},{22904,0},{22901,0},{16867,7635},{22911,7538},{19803,7636},{22916,0},{22920,7637},{22919,0},{22895,0},{22306,7641},{22925,0},{22928,0},{22929,7546},{21334,7633},{22934,0},{16890,7645},{19491,7644},{22940,0},{16065,7647},{22952,0},{21516,7651},{22956,7173},{22962,7617},{22967,0},{22522,7657},{21894,7658},{22949,0},{20904,7659},{22982,0},{21727,7662},{22988,0},{22960,7650},{22305,7661},{22991,0},{21582,7658},{20014,7660},{22989,7548},{22992,6164},{22994,0},{19291,7665},{23000,0},{23003,0},{23004,7647},{23007,7648},{22959,7670},{19993,7671},{23018,0},{23021,0},{21157,7676},{23027,0},{23036,0},{20217,7679},{21726,7681},{23051,0},{23048,0},{23042,0},{23030,0},{23052,7573},{23057,0},{23063,0},{23066,0},{18180,7689},{23071,7323},{23070,7323},{23073,7692},{23081,0},{23022,7697},{23087,0},{23089,6158},{22704,7698},{23090,0},{23099,0},{22309,7700},{23108,0},{19264,7705},{22425,7700},{21156,7707},{19473,7705},{23111,0},{21930,7709},{22728,7711},{23138,0},{23144,0},{17854,7715},{23147,0},{23148,5306},{22623,7698},{22968,7718},{23159,0},{23153,0},{23163,6158},{23162,0},{18172,7722},{23171,0},{23172,7704},{23180,0},{23177,0},{18480,7722},{23176,7307},{23183,0},{23186,0},{23192,0},{23195,0},{23152,7649},{20041,7734},{23204,0},{17853,7735},{23210,0},{23213,0},{23216,0},{23031,7740},{22860,7742},{23225,0},{23109,7744},{23232,7706},{22795,7745},{23158,7738},{23241,7307},{23237,0},{23246,0},{23231,0},{23249,0},{22443,7752},{23262,6494},{23259,7732},{23264,0},{22360,7755},{20250,7756},{23273,0},{22473,7755},{16065,7758},{23277,7584},{23217,7760},{23285,0},{23288,0},{23294,0},{23300,0},{23287,7514},{23302,6742},{22417,7782},{22794,7769},{23306,0},
{23250,7770},{23301,6742},{22447,7773},{23324,0},{23327,0},{23328,6426},{23321,0},{23336,0},{23333,0},{23342,0},{23345,0},{23351,0},{23103,7784},{22791,7785},{23238,7786},{23366,0},{21183,7787},{23369,0},{23372,0},{22863,7785},{23253,7792},{22798,7790},{23375,0},{21754,7793},{20950,7787},{22449,7789},{23384,0},{23387,0},{23391,7796},{22446,7799},{23396,0},{23337,7800},{23142,7801},{23403,7713},{15408,7803},{22716,7785},{22635,7785},{19048,7824},{23289,7804},{23417,0},{23420,0},{23425,7686},{23041,7805},{22321,7810},{23429,0},{22866,7811},{23438,0},{23449,6425},{23058,7808},{23450,0},{23441,0},{23453,0},{23456,0},{20035,7820},{20244,7820},{23468,0},{23465,0},{23474,0},{23477,0},{23480,0},{23483,0},{23486,0},{23489,0},{23230,7831},{23295,7832},{23118,7832},{23124,7833},{23495,0},{23502,7814},{23505,6746},{23511,7815},{23509,7813},{23130,7839},{21784,7840},{23516,0},{23525,0},{23514,7834},{23526,6493},{21951,7840},{23508,7843},{23457,7845},{23540,0},{23539,7449},{23506,6746},{23543,0},{23547,7823},{19047,7850},{23491,6907},{23492,0},{23553,7802},{15738,7853},{23565,7583},{22857,7854},{23570,0},{23573,0},{22546,7885},{23576,0},{22429,7859},{21189,7856},{23313,7860},{23594,0},{22531,7884},{23588,0},{23248,7863},{23595,7623},{23591,0},{23612,0},{23615,0},{23609,0},{23618,0},{23600,0},{23622,7487},{23628,7823},{23621,0},{23544,7877},{23629,7878},{23643,7072},{23639,0},{22476,7880},{23646,7852},{22366,7880},{23651,0},{23579,0},{20953,7886},{23421,7887},{23666,0},{23667,7729},{23672,0},{23664,7749},{23678,0},{23675,0},{23684,0},{23452,7894},{23316,7898},{23693,0},{23697,7900},{23692,7403},{23689,7888},{23714,0},{23715,7849},{22738,7907},{23723,0},{23729,0},{23735,0},{19497,7910},{23738,0},{23741,0},{23726,0},{14361,7914},{22551,7915},{23750,0},{23753,0},{23316,7918},{22326,7916},{23170,7919},{23443,7917},{23798,0},{23765,0},{23769,7922},{23688,7918},{23777,0},{22335,7925},{23532,7924},{22344,7927},{23780,0},{23786,0},{23789,0},{23792,0},{23800,6992},{23801,0},{22737,7934},{21985,7937},{23805,7936},{23813,0},{23817,7938},{23825,0},{23828,0},{23893,7965},{22668,7969},{22201,7943},{23837,0},{23442,7944},{23583,7944},{23845,7314},{23843,0},{23840,0},{21195,7947},{23679,7950},{23599,7951},{23685,7949},{23846,0},{23855,0},{23867,0},{23858,0},{23864,0},{22207,7953},{23870,0},{23874,7875},{23875,7875},{22357,7961},{23886,7070},{22467,7961},{23891,0},{23894,0},{23897,0},{21984,7966},{14364,7968},{23916,7920},{23589,7973},{23924,0},{23927,0},{20959,7977},{23930,0},{23914,7416},{23948,0},{23949,7314},{23917,7920},{23709,7984},{23958,7957},{23955,7987},{22464,7989},{23972,0},{23939,0},{23978,0},{23981,0},{23984,0},{23988,7997},{23996,0},{23999,0},{23910,7629},{23791,8012},{24002,0},{24005,0},{24006,7867},{24009,7868},{23937,8005},{24012,8005},{24026,0},{24020,0},{24028,7873},{24032,0},{23593,8011},{24038,0},{24041,0},{24042,7931},{24027,7906},{24040,7321},{23586,8004},{23796,8004},{24013,7982},{23985,8017},{24059,0},{22245,8020},{14370,8021},{24072,7978},{23940,8025},{23503,8026},{24087,8007},{24086,0},{24081,7901},{24098,0},{24102,7890},{23880,8035},{21963,8036},{24116,0},{24119,0},{23977,8037},{24122,0},{24103,7920},{24125,0},{24128,0},{24113,0},{23140,8043},{24131,0},{24129,7882},{24137,0},{22573,8045},{24127,7940},{24138,5051},{23944,8047},{24143,0},{24149,0},{24146,0},{24158,0},{23965,8052},{24090,8051},{24152,0},{24167,0},{24170,0},{24185,0},{24180,8015},{24178,8058},{24176,0},{24048,8064},{24189,7908},{24164,0},{24197,0},{23139,8066},{24203,0},{23478,8066},{22665,8068},{24212,0},{24207,7970},{24218,0},{23943,8073},{22351,8074},{24225,7902},{24234,8079},{24233,0},{23964,8076},{22458,8074},{24236,0},{22227,8081},{24249,8062},{24254,0},{24246,8023},{24165,8082},{24177,8085},{24260,0},{24272,0},{24273,7970},{24278,0},{24281,0},{24094,8096},{24293,0},{24093,8096},{24296,0},{24097,8099},{24309,8101},{24299,0},{24302,0},{24306,8023},{24308,0},{22231,8105},{24311,0},{23929,8106},{23973,8107},{24295,8100},{24329,0},{24054,8111},{24332,0},
{23199,8112},{24339,7967},{23646,8114},{23082,8115},{23877,8116},{24361,8006},{24356,0},{24099,8117},{24357,8101},{24363,8023},{24374,0},{24018,8120},{24159,8122},{24365,0},{24150,8119},{23788,8116},{24357,8104},{24379,6429},{24261,8128},{24393,8088},{24196,8132},{24398,0},{23332,8134},{24407,0},{23740,8136},{24385,8087},{24410,0},{24456,8130},{24416,0},{23974,8141},{24426,8123},{24162,8139},{24440,0},{24437,0},{24425,0},{24432,8080},{24431,0},{24441,8125},{24449,0},{24446,0},{24417,8082},{24452,0},{24455,0},{24267,8155},{24471,8044},{24470,0},{24474,7970},{24457,8130},{24479,0},{23817,8160},{24486,8140},{24497,0},{24491,0},{24492,8023},{24507,8170},{24494,0},{23973,8168},{24171,8166},{24519,8127},{24387,8168},{24463,8176},{24462,8176},{24533,0},{24536,0},{24540,8069},{24545,0},{24282,8182},{24211,8182},{24551,0},{24513,8189},{24554,0},{24501,8185},{24563,0},{24575,0},{24572,0},{24448,8191},{24558,8107},{24576,8175},{24581,0},{24490,8184},{24587,0},{24207,8197},{24602,0},{24600,8199},{24604,8182},{24654,1178},{24604,8219},{24232,8211},{24558,8204},{24564,8206},{24617,0},{24611,0},{24516,8207},{24522,8209},{24610,8023},{24630,8204},{24399,8212},{24174,8213},{24640,8058},{24642,8196},{24647,0},{24648,1198},{24660,8094},{24483,8221},{24668,0},{24672,8209},{24671,0},{24324,8225},{24680,0},{24689,0},{24686,0},{24184,8223},{24695,0},{24469,8233},{24701,0},{24702,8115},{24664,8161},{24411,8234},{24665,0},{24598,8235},{24710,0},{24624,8238},{24719,0},{24681,8240},{24725,0},{24522,8240},{24711,8244},{24690,8243},{24743,0},{24468,8248},{24741,8179},{24749,0},{24752,0},{24747,7648},{24685,8237},{24751,8217},{24757,8161},{24737,0},{24708,8253},{24753,5246},{24253,8255},{24726,8256},{24773,0},{24779,0},{24459,8258},{24785,0},{24583,8261},{24780,8245},{24791,0},{24794,0},{24786,8194},{22887,8265},{24736,8260},{24801,7647},{24651,8266},{24808,8270},{24867,1178},{24808,8290},{24814,8260},{24819,4788},{24818,0},{24823,8176},{24825,8276},{24418,8278},{24615,8277},{24822,8151},{24842,0},{24582,8279},{24852,8279},{24594,8283},{24474,8283},{24857,0},{24860,0},{24864,8268},{24816,8291},{24866,0},{24697,8296},{24887,0},{24890,0},{24899,0},{24893,0},{24628,8298},{24905,0},{24786,8300},{24908,0},{24909,7629},{24912,7970},{24915,7648},{24921,8306},{24892,8281},{24859,8307},{24924,8268},{24926,0},{24927,1198},{24693,8311},{24696,8311},{24696,8312},{24947,0},{24843,8314},{24932,0},{24846,8316},{24954,8282},{24968,0},{24973,8292},{25011,1178},{24973,8338},{24966,8323},{24977,0},{24805,8327},{24996,8331},{24986,0},{24987,8312},{24992,0},{24987,8300},{24946,8332},{25008,1198},{24998,0},{24975,8339},{25037,0},{24939,8344},{25038,8246},{25035,8300},{25029,8333},{25041,8312},{25035,8317},{25046,0},{25020,8348},{24970,8349},{25051,8331},{24931,8343},{25055,0},{25059,8352},{24886,8354},{25067,0},{25068,8262},{25061,0},{25073,0},{25076,0},{25078,8340},{25082,0},{25080,8363},{25053,8361},{24841,8365},{25068,8366},{25107,8300},{25005,8371},{25104,8158},{25099,8356},{25117,8362},{25146,1178},{25117,8383},{25119,1198},{25100,0},{25127,0},{25068,8376},{25133,0},{25130,0},{25128,8366},{25136,0},{25134,8262},{25145,0},{25125,8384},{25090,8385},{25159,8356},{25144,8374},{25176,8316},{25164,8366},{25170,8389},{25173,8368},{25002,8392},{25181,0},{25140,8391},{25122,8394},{25185,8396},{25195,8397},{25224,1178},{25195,8409},{25187,0},{25197,8367},{25202,0},{25205,0},{25208,0},{25209,8370},{25137,8404},{24285,8405},{25217,0},{25215,7970},{25221,8410},{25223,0},{24742,8412},{25242,8413},{25250,0},{24475,8417},{25256,0},{25262,0},{25265,0},{25271,0},{25274,0},{24909,8425},{24957,8425},{24960,8425},{25278,8415},{24912,8425},{25280,0},{25273,8406},{25239,8430},{25218,8431},{25298,0},{25301,0},{25304,0},{25307,0},{25310,0},{25207,8437},{25291,8400},{25315,8431},{25344,1178},{25315,8449},{25319,0},{24753,8441},{24861,8441},{24963,8442},{24534,8443},{24747,8441},{24819,8441},{24879,8441},{25332,8419},{24606,8445},{25263,8450},{23911,8460},{22816,8454},{25353,8415},{25358,0},
{25361,0},{22888,8456},{24208,8455},{25373,0},{25376,0},{25379,0},{25385,0},{25394,0},{23481,8465},{25398,7716},{25387,7970},{25428,8405},{25387,8477},{25389,5306},{23208,8466},{25401,8427},{25406,0},{23823,8469},{24138,8470},{24213,8470},{25403,0},{25393,8440},{25387,8405},{25320,8473},{25446,8022},{25424,0},{15733,8475},{25442,0},{25437,5136},{25436,0},{25445,0},{25285,8482},{25451,0},{25454,0},{25446,7629},{25457,0},{25260,8482},{25462,8447},{25509,1178},{25462,8504},{25447,8420},{25470,8405},{15738,8491},{25478,0},{25487,0},{16065,8493},{25491,8471},{25467,8471},{14364,8498},{14736,8499},{25500,8420},{25414,8489},{25459,8502},{15570,8501},{25506,8486},{25383,8505},{25521,7626},{14362,8508},{25482,8507},{25527,5136},{25437,8507},{25523,0},{25390,8507},{25521,8463},{25467,8510},{15409,8511},{14371,8514},{25389,8509},{25539,8510},{25552,8446},{25605,1178},{25552,8536},{15154,8515},{25390,8520},{25559,0},{25486,8513},{25560,8463},{14977,8519},{25565,0},{25568,0},{25571,0},{25580,0},{25488,8527},{25574,0},{25586,0},{25595,0},{25590,8512},{25598,0},{25599,8516},{25492,8534},{25616,0},{25613,0},{14976,8540},{25477,8542},{25624,8488},{25680,1178},{25624,8561},{25631,0},{25629,8538},{25581,8523},{25635,8492},{25575,8546},{25646,0},{25647,8523},{25642,8551},{25658,0},{25638,8551},{25662,8551},{25666,8506},{25722,1178},{25666,8575},{25563,8557},{25662,8556},{25654,8554},{25676,0},{25700,0},{25701,8529},{25650,8568},{25709,0},{25714,8548},{25656,8568},{25730,0},{25716,8553},{25639,8573},{25731,8562},{15291,8580},{25733,0},{25719,8546},{25710,1433},{25764,8578},{25743,8547},{25748,0},{25749,8552},{25651,8586},{25756,8518},{25800,1178},{25756,8601},{25761,8590},{25772,0},{14377,8591},{25660,8593},{25779,8553},{25692,8594},{25746,8553},{25790,0},{25752,8597},{25792,8553},{25789,8598},{25798,8539},{25842,1178},{25798,8615},{25808,0},{25828,8538},{25827,8556},{25786,8563},{25811,0},{25817,0},{25669,8607},{25785,8605},{25785,8563},{25787,0},{25710,8610},{25794,8610},{25835,0},{25761,8617},{25840,8559},{25893,1178},{25840,8632},{25850,0},{25858,8543},{25857,8563},{25876,8626},{25911,8605},{25876,8638},{25695,8622},{25824,8610},{25851,8590},{25794,8612},{25874,0},{25881,8598},{25836,8629},{25711,8628},{25902,8633},{25890,8590},{25910,0},{25926,8587},{25920,8641},{25888,8645},{25942,8579},{25962,1178},{25942,8655},{25935,8646},{25947,8634},{25944,8649},{25949,0},{25953,8648},{25929,8652},{25935,8629},{25960,8589},{25992,1178},{25960,8665},{25970,0},{25971,8618},{25976,0},{25985,0},{25837,8663},{25988,0},{25855,8657},{25906,8668},{26000,0},{26004,8635},{26020,8623},{26031,1178},{26020,8678},{26001,8661},{26014,8606},{26043,1178},{26014,8682},{26016,1198},{26025,8667},{26023,8620},{26058,1178},{26023,8687},{26028,8650},{26051,0},{26042,0},{26054,0},{26039,0},{26066,0},{26055,8659},{25867,8689},{26079,8690},{25932,8692},{26096,0},{26085,8694},{26089,8639},{26103,1178},{26089,8702},{26087,0},{26085,8690},{26091,8695},{26120,0},{26097,8544},{26097,8592},{26097,8254},{26097,8294},{26097,8326},{26097,8341},{26097,8621},{26097,8604},{26097,8669},{26097,8387},{26100,8697},{26097,8364},{26111,0},{26097,8429},{26097,8660},{26097,8691},{26097,8670},{26117,0},{26097,8070},{26097,8704},{26098,31},{26097,8472},{26097,8422},{26097,8411},{25729,8715},{25612,8708},{25969,8724},{25018,8713},{24874,8711},{25351,8721},{25807,8714},{25153,8717},{25516,8729},{25900,8716},{25189,8731},{24760,8710},{25687,8709},{25084,8719},{25027,8712},{26156,0},{26121,8699},{4299,8720},{25849,8722},{25999,8723},{26050,8727},{26097,8725},{24661,8726},{1980,8728},{25231,8730},{26240,0},{26237,0},{26211,8740},{26268,8742},{26264,0},{26231,0},{26201,0},{26228,0},{26270,0},{26255,0},{26219,0},{26083,8748},{26208,8743},{26216,0},{26205,8746},{26252,0},{26198,0},{26258,0},{26097,8747},{26235,8739},{26210,0},{26213,0},{26204,0},{26235,8735},{26217,8746},{26207,0},{26232,8733},{26220,8744},{26223,8750},{26222,0},{26234,0},{26225,0},{26226,8737},{26038,8753},{26208,8735},{26277,8760},
{26279,0},{26232,8763},{26309,0},{26298,8779},{26223,8772},{26319,8770},{26372,0},{26326,8749},{26307,8754},{26343,8780},{26310,8763},{26319,8744},{26295,8737},{26351,0},{26357,0},{26322,8751},{26322,8779},{26322,8768},{26319,8763},{26205,8757},{26283,8743},{26433,8789},{26382,8793},{26313,8795},{26390,0},{26391,8774},{26280,8794},{26304,8800},{26438,0},{26391,8766},{26307,8802},{26409,8804},{26304,8799},{26322,8800},{26403,8802},{26417,0},{26418,8773},{26304,8807},{26426,0},{26408,0},{669,8801},{26432,0},{26441,0},{26478,8825},{26490,8809},{26447,0},{26451,8774},{26450,0},{26454,8799},{26469,8236},{26376,8824},{26466,8779},{26352,8828},{26489,0},{26499,8802},{26493,8799},{26376,8832},{26373,8835},{26463,8745},{26442,8837},{26532,8824},{26376,8836},{26394,8838},{26328,8840},{26517,8799},{26457,8841},{26511,8788},{26528,0},{26532,8836},{26538,8770},{26535,8770},{26549,0},{26552,0},{26546,0},{26567,0},{26573,0},{26570,0},{26304,8866},{26579,0},{26529,8860},{26562,8853},{26591,0},{26588,0},{26472,8864},{26553,8865},{26633,0},{26523,8867},{26574,8869},{26460,8868},{26612,0},{26618,0},{26621,0},{26481,8873},{26625,8874},{669,8873},{26619,8847},{26630,0},{26639,0},{26642,0},{26583,8883},{26657,0},{669,8885},{26658,8837},{26613,8882},{26532,8889},{26663,0},{1857,8885},{26634,8739},{26702,0},{26684,0},{26643,8890},{26687,0},{26678,0},{26400,8896},{26693,0},{26709,8891},{26508,8907},{26715,8884},{26715,8893},{26556,8901},{26724,8761},{26724,8762},{26726,0},{26724,8070},{26729,0},{26224,8770},{26754,8908},{26224,8919},{26197,8733},{26763,8908},{26197,8922},{26724,8765},{26301,8908},{26727,8905},{26311,8744},{26781,8908},{26311,8928},{26317,8773},{26790,8908},{26317,8931},{26724,8757},{26724,8764},{26738,0},{26676,8909},{26331,8908},{26724,8734},{26724,8751},{26724,8778},{26735,0},{26724,8787},{26274,8908},{26218,8735},{26832,8908},{26218,8945},{26290,8737},{26841,8908},{26290,8948},{26221,8756},{26850,8908},{26221,8951},{26203,8750},{26859,8908},{26203,8954},{26227,8745},{26868,8908},{26227,8957},{669,8909},{669,8908},{26296,8767},{26883,8908},{26296,8962},{26335,8764},{26892,8908},{26335,8965},{26362,8786},{26901,8908},{26362,8968},{26323,8779},{26910,8908},{26323,8971},{26724,8786},{26724,8782},{26299,8741},{26925,8908},{26299,8976},{26745,8762},{26751,8905},{26777,0},{26676,8917},{26334,8915},{26331,8915},{26819,0},{26745,8782},{26271,8915},{26274,8915},{26745,8761},{26745,8787},{26370,8915},{26745,8786},{26214,8915},{26295,8915},{669,8941},{26762,0},{26780,0},{26745,8764},{26882,0},{26879,0},{26256,8915},{26301,8915},{26712,8935},{26750,0},{26619,8926},{26199,8915},{26718,9002},{26937,8884},{26937,8873},{26948,0},{26951,0},{26975,0},{26664,8996},{26936,0},{26984,0},{26397,8984},{26993,0},{26949,9006},{26743,8913},{27054,9006},{26743,9019},{26917,8977},{27063,9006},{26917,9022},{26941,9016},{27072,9006},{26941,9025},{27020,0},{27009,9013},{26866,8995},{27087,9006},{26866,9030},{26899,8963},{27096,9006},{26899,9033},{26770,8969},{27105,9006},{26770,9036},{26773,8934},{27114,9006},{26773,9039},{27034,9009},{27123,9006},{27034,9042},{26742,9006},{26811,9006},{26955,9006},{26958,9006},{26964,9006},{26923,8933},{27147,9006},{26923,9050},{27004,8987},{27156,9006},{27004,9053},{26284,8070},{27165,9006},{26284,9056},{26814,9006},{26820,9006},{26202,9006},{26365,8750},{27183,9006},{26365,9062},{669,9006},{27045,9006},{26980,8943},{27198,9006},{26980,9067},{26968,9005},{27207,9006},{26968,9070},{26971,9000},{27216,9006},{26971,9073},{26761,8932},{27225,9006},{26761,9076},{26797,8929},{27234,9006},{26797,9079},{26827,8923},{27243,9006},{26827,9082},{26875,8946},{27252,9006},{26875,9085},{26848,8952},{27261,9006},{26848,9088},{27053,0},{27062,0},{27269,0},{27242,0},{27102,8936},{26778,9031},{27081,8915},{27260,0},{27031,9028},{27294,9006},{27031,9099},{27206,0},{27122,0},{26748,9027},{26811,9027},{26934,9027},{26961,9027},{26955,9027},{26799,9027},{27137,0},{27140,0},{27143,0},{27134,0},{27164,0},{27146,0},{27155,0},{27171,8915},{26778,9037},
{26943,9034},{27021,9034},{26778,9034},{27021,9031},{27021,9037},{26919,9027},{26817,9027},{26739,9027},{27111,8981},{27179,0},{27176,0},{26976,9027},{27181,9063},{27390,8908},{27181,9131},{27194,0},{27251,0},{27215,0},{27233,0},{27224,0},{27197,0},{26271,9096},{27273,9090},{27287,0},{27284,0},{27078,9101},{27377,0},{27288,8751},{27398,0},{27320,0},{27326,0},{27311,0},{27317,0},{27323,0},{27314,0},{27345,9113},{27021,9136},{27024,9116},{27288,8070},{27356,0},{27021,9097},{27353,0},{26778,9116},{26943,9116},{26808,9116},{27368,0},{27362,0},{27359,0},{27365,0},{26943,9097},{26778,9092},{27021,9093},{27012,9116},{26502,9138},{27371,0},{27374,0},{26778,9136},{26778,9097},{27279,8926},{27021,9092},{27021,9116},{27270,9091},{27380,0},{27306,9043},{27291,8936},{27389,0},{27276,8981},{27419,0},{27554,0},{27431,0},{27402,9183},{27512,0},{27524,0},{27437,0},{27450,9149},{27441,9110},{27444,9109},{27456,9112},{27453,9111},{27461,0},{27467,0},{27464,0},{26943,9156},{27488,0},{27482,0},{27476,0},{27021,9156},{27485,0},{27477,9157},{27024,9156},{27503,0},{27509,0},{27506,0},{27545,0},{27515,0},{27384,9173},{27530,0},{27548,0},{27426,9141},{27300,9144},{27527,0},{27533,0},{27516,9127},{27653,0},{27420,9185},{27537,9185},{27566,0},{27570,9189},{27405,9220},{27576,9114},{27582,9193},{27585,9196},{26937,9197},{26778,9211},{26943,9197},{27021,9187},{26943,9187},{26778,9187},{27602,0},{27597,9198},{27614,0},{27654,9219},{27618,9166},{27623,0},{26808,9197},{26778,9197},{26808,9187},{26943,9211},{27021,9211},{27438,9191},{27630,9208},{27642,9215},{27540,9212},{27411,9213},{27069,9186},{27024,9221},{27680,0},{27740,0},{27731,0},{27686,0},{27689,0},{27683,0},{27671,0},{26778,9221},{26808,9221},{27021,9224},{27707,0},{27695,0},{27698,0},{27692,0},{26943,9221},{27701,0},{27704,0},{27648,9250},{27609,9236},{26778,9224},{669,9238},{27668,0},{27021,9221},{27723,9209},{27743,0},{27728,0},{27747,9252},{27737,0},{27734,0},{27021,9278},{27761,0},{27846,9251},{27024,9259},{26808,9257},{26808,9258},{26937,9258},{26943,9257},{26808,9259},{26943,9259},{26943,9258},{27021,9254},{27826,9156},{27885,8909},{27826,9296},{26778,9254},{27788,0},{27791,0},{27785,0},{26778,9258},{26778,9257},{26808,9260},{26778,9260},{27615,9269},{27806,0},{27831,9248},{27768,9255},{27798,9265},{26943,9254},{26619,9258},{26937,9257},{27824,0},{27021,9259},{26778,9259},{27821,0},{27851,0},{27950,0},{27941,0},{27935,0},{27938,0},{27884,0},{27875,0},{27881,0},{27872,0},{27869,0},{26676,9297},{27878,0},{27866,0},{27896,0},{27860,0},{27863,0},{27917,0},{27911,0},{27908,0},{27801,9301},{27914,0},{27900,9299},{27927,9307},{26619,9297},{26730,9297},{27843,9317},{27957,9320},{27675,9321},{27855,9322},{27986,0},{27987,9165},{27981,9202},{28025,0},{27993,9270},{27492,9326},{27489,9324},{27969,9201},{27711,9330},{27999,9332},{27792,9325},{28014,9308},{27918,9336},{28017,9310},{27816,9334},{28013,0},{27852,9318},{27837,9343},{28022,0},{28049,0},{27814,9344},{28101,8873},{27814,9368},{28044,9335},{28062,9357},{27717,9347},{27720,9356},{28059,9352},{28034,0},{28065,9351},{28035,9346},{27840,9350},{28082,0},{28076,0},{28079,0},{28086,8884},{28085,0},{28092,9363},{28136,0},{28109,0},{28130,0},{28121,0},{28112,0},{28154,0},{28125,8884},{28098,8884},{28115,0},{28124,0},{28118,0},{28133,0},{1,0},{28192,9314},{28192,9178},{28192,9315},{28192,9276},{28192,9342},{28192,9392},{28192,9391},{28192,9382},{28192,9383},{28192,9381},{28192,9389},{28192,9365},{28192,9395},{28192,9393},{28192,9394},{28192,9379},{28192,9380},{28192,9387},{28192,9388},{28192,9390},{28192,9385},{28192,9396},{28192,9386},{28192,9133},{28192,8998},{28192,8999},{28192,9014},{28192,8898},{28192,8902},{28192,8902},{28192,143},{28192,8755}
