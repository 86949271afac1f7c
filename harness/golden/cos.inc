// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{72,23},{90,29},{67,21},{102,23},{67,35},{61,19},{111,23},{61,38},{71,0},{21,23},{15,23},{57,23},{22,6},{132,23},{22,45},{67,21},{141,23},{67,48},{64,20},{150,23},{64,51},{68,0},{19,7},{162,23},{19,55},{13,5},{171,23},{13,58},{26,0},{77,0},{81,26},{58,20},{189,23},{58,64},{61,21},{198,23},{61,67},{17,0},{65,0},{20,0},{2,0},{50,0},{14,0},{5,0},{11,0},{23,0},{53,0},{8,0},{59,0},{56,0},{62,0},{38,0},{41,0},{47,0},{44,0},{35,0},{29,0},{32,0},{89,0},{74,0},{92,0},{83,0},{86,0},{78,25},{84,27},{12,23},{80,0},{18,23},{121,24},{98,0},{119,0},{110,0},{18,40},{24,40},{125,0},{128,0},{12,40},{69,53},{232,60},{330,23},{232,111},{15,40},{184,26},{271,30},{295,27},{159,70},{207,77},{225,79},{228,74},{219,78},{243,80},{213,72},{258,85},{180,88},{249,84},{267,87},{270,92},{120,91},{279,94},{183,98},{288,95},{99,32},{299,0},{293,0},{283,29},{280,28},{75,101},{304,25},{396,133},{410,0},{300,40},{301,23},{302,0},{69,100},{341,0},{314,0},{317,0},{326,0},{329,0},{177,100},{413,0},{350,0},{195,100},{204,100},{351,82},{360,118},{363,122},{369,119},{375,127},{378,124},{387,131},{390,128},{344,0},{338,0},{416,0},{75,164},{431,0},{78,153},{432,40},{432,23},{0,142},{3,145},{441,107},{419,0},{444,106},{12,145},{405,146},{9,142},{435,139},{417,107},{9,145},{6,142},{418,145},{0,145},{24,142},{27,145},{36,142},{39,145},{432,56},{39,142},{42,145},{51,145},{48,142},{455,0},{495,144},{81,152},{30,145},{27,142},{30,142},{33,145},{33,142},{45,142},{36,145},{48,145},{42,142},{45,145},{467,0},{464,0},{438,134},{169,59},{633,144},{169,212},{474,156},{477,157},{483,160},{486,163},{54,145},{51,142},{422,0},{57,145},{54,142},{6,145},{81,153},{423,28},{3,142},{63,142},{432,65},{342,166},{501,101},{310,102},{693,168},{310,232},{0,171},{510,2},{9,171},{506,0},{504,40},{521,0},{518,0},{504,23},{6,171},{510,1},{524,0},{533,0},{539,0},{530,0},{536,0},{504,49},{3,171},{510,0},{548,0},{551,0},{504,46},{554,0},{451,52},{768,168},{451,257},{0,180},{504,150},{70,49},{783,168},{70,262},{30,170},{33,171},{560,0},{563,0},{569,0},{566,0},{572,0},{33,170},{36,171},{578,0},{575,0},{45,171},{42,170},{581,0},{584,0},{632,0},{683,0},{686,0},{9,170},{12,171},{680,0},{24,170},{27,171},{54,170},{513,19},{54,171},{51,170},{30,171},{27,170},{42,171},{39,170},{608,0},{611,0},{614,0},{36,170},{39,171},{602,0},{605,0},{617,0},{620,0},{623,0},{631,112},{915,100},{631,306},{645,214},{45,170},{48,171},{659,0},{656,0},{48,170},{51,171},{671,0},{590,0},{599,0},{596,0},{674,0},{668,0},{665,0},{837,100},{689,0},{960,321},{692,0},{411,319},{69,237},{710,0},{707,0},{711,40},{723,8},{60,237},{714,13},{723,13},{714,14},{720,239},{714,10},{714,9},{723,12},{723,9},{714,18},{723,17},{728,0},{714,16},{714,2},{723,15},{731,0},{723,16},{129,237},{714,17},{714,1},{723,14},{714,15},{139,248},{1062,168},{139,355},{723,18},{714,19},{738,245},{732,237},{742,244},{1083,168},{742,362},{723,10},{714,11},{714,4},{504,247},{755,0},{752,0},{156,237},{749,0},{764,0},{744,237},{714,3},{759,252},{765,258},{797,0},{794,0},{798,267},{807,268},{815,0},{818,0},{822,273},{830,0},{827,0},{834,277},{878,0},{866,0},{857,0},{875,0},{884,0},{881,0},{872,0},{863,0},{860,0},{869,0},{896,0},{900,301},{899,0},{888,302},{885,297},{909,304},{701,0},{923,0},{924,216},{929,0},{932,0},{941,0},{944,0},{933,312},{848,0},{851,0},{951,318},{704,0},{723,11},{714,12},{843,280},{701,0},{186,323},{1227,408},{975,323},{507,323},{981,11},{981,3},{990,12},{990,11},{981,2},{990,4},{981,15},{990,16},{990,15},{984,329},{981,14},{990,3},{981,10},{1013,0},{1016,0},{995,0},{981,17},{1022,0},{1001,0},{1008,175},{990,18},{1004,0},{1019,0},{1007,0},{990,19},{981,18},{996,40},{1029,347},{1052,0},{1034,0},{981,12},{1046,0},{1040,0},{981,16},{1037,0},{990,13},{990,17},{981,8},{990,9},{1028,0},{990,10},{1049,0},{981,9},{1055,0},{1025,0},{1097,0},{1100,0},{1094,0},{1076,0},{1073,0},{1061,0},{1070,0},{1091,0},{1082,0},{1058,0},{1107,368},{1112,0},{1103,0},{1113,184},{1255,241},{1446,184},{1255,483},{1121,0},{1124,0},{1010,0},{1137,270},{1131,378},{1146,381},{1155,384},
{981,13},{1253,0},{1247,0},{1250,0},{78,323},{990,14},{945,414},{1188,393},{1185,389},{1164,394},{1170,387},{1176,391},{1197,397},{980,0},{651,405},{1221,406},{1239,316},{1236,411},{968,0},{1259,0},{1521,410},{1265,0},{1268,0},{1280,0},{1283,0},{1307,0},{1301,0},{1277,0},{1296,149},{1274,0},{1296,144},{1295,0},{1286,0},{1271,0},{1304,0},{1292,0},{1289,0},{1314,437},{1346,0},{1335,441},{1343,0},{1331,0},{1319,0},{1349,0},{1332,446},{1328,0},{1320,436},{1362,451},{1370,0},{1361,0},{1401,462},{1365,452},{1391,0},{1397,0},{1350,359},{1376,0},{1379,0},{1385,0},{1382,0},{1428,469},{1410,468},{1431,473},{1416,471},{1445,0},{1434,375},{1455,486},{1467,380},{1466,0},{1470,383},{1526,0},{1296,195},{1473,386},{1494,284},{1490,0},{1503,208},{1506,401},{1500,398},{1509,400},{1497,209},{1512,402},{84,505},{1520,0},{1527,510},{1493,0},{1482,495},{1478,0},{1260,324},{1736,0},{978,511},{348,565},{1718,0},{1538,0},{1551,515},{1563,524},{1554,523},{1568,0},{1548,526},{1560,181},{1584,527},{1540,180},{1575,519},{1605,464},{1590,532},{1602,533},{1635,544},{1650,549},{1620,548},{1640,0},{1623,547},{1655,0},{1662,479},{1694,0},{1670,0},{1673,0},{1676,0},{1682,0},{1724,0},{1691,0},{1688,0},{1703,0},{1712,0},{1709,0},{1706,0},{1700,0},{1715,0},{540,513},{1731,575},{1719,220},{1742,0},{640,604},{1863,175},{640,622},{1854,576},{1745,0},{1853,0},{1769,0},{1761,537},{1770,536},{1755,457},{1758,531},{1776,538},{1764,466},{1752,529},{1775,0},{1782,539},{1779,542},{1785,543},{1791,372},{1794,553},{1800,552},{1798,185},{1926,175},{1798,643},{1788,480},{1808,0},{1825,603},{1941,175},{1825,648},{1843,213},{1950,175},{1843,651},{1834,404},{1959,175},{1834,654},{1213,599},{1968,175},{1213,657},{1746,511},{675,620},{1542,625},{1423,633},{1986,255},{1423,663},{1894,634},{1995,255},{1894,666},{1426,630},{2004,255},{1426,669},{1884,627},{1888,632},{2016,255},{1888,673},{1874,0},{1911,255},{1895,0},{1910,0},{1916,0},{1925,0},{1922,0},{1898,0},{1937,0},{1919,0},{1904,0},{781,646},{2058,255},{781,687},{1913,0},{1889,0},{1947,513},{765,635},{1977,136},{591,625},{1982,0},{1985,0},{1983,626},{2023,670},{2094,635},{2023,699},{2013,513},{2002,664},{2106,635},{2002,703},{2030,0},{775,678},{2118,255},{775,707},{790,689},{2127,255},{790,710},{1210,679},{2136,255},{1210,713},{1716,692},{2081,0},{2084,0},{2085,716},{2091,591},{2093,0},{2091,635},{2114,0},{2102,0},{1263,696},{2151,620},{2145,241},{87,716},{2088,513},{2156,0},{2157,184},{2157,255},{2160,635},{2186,0},{2180,0},{346,727},{2177,0},{2187,736},{2207,0},{2175,733},{2211,738},{2217,255},{2217,735},{2217,184},{2172,740},{2226,718},{2184,740},{2220,696},{1983,740},{2229,735},{2223,735},{2232,139},{2193,745},{2232,175},{2238,175},{2154,750},{2196,745},{2247,718},{2190,745},{2235,697},{2103,747},{2238,139},{2238,644},{777,746},{2241,691},{2013,744},{2244,513},{2157,745},{540,746},{2073,748},{777,744},{2232,649},{2103,748},{2232,655},{2232,658},{2238,658},{2232,623},{2238,655},{2232,644},{2238,652},{2238,623},{2232,652},{2262,579},{1809,751},{2163,755},{2274,678},{2256,675},{2274,679},{2271,721},{2256,677},{2268,555},{2268,484},{2288,0},{2282,0},{2256,680},{2268,255},{2283,604},{2283,603},{2274,681},{2268,376},{2277,723},{2277,722},{2268,688},{2283,487},{2256,690},{2274,689},{2268,708},{2291,0},{2294,0},{2262,559},{2256,263},{2297,0},{2283,606},{2274,646},{2256,681},{2283,583},{2259,608},{2298,139},{2277,635},{2262,607},{2253,559},{2262,606},{2253,561},{2283,609},{2259,610},{2298,623},{2342,0},{2345,0},{2253,604},{2262,611},{2283,612},{2262,613},{2256,260},{2283,615},{2259,559},{777,766},{2262,614},{2262,609},{2262,561},{2283,559},{2256,241},{2262,610},{2283,144},{2298,644},{2283,607},{2283,616},{2283,613},{2301,708},{2259,614},{2283,142},{2315,0},{2312,0},{2301,711},{2253,487},{2318,0},{2253,606},{2253,616},{2327,0},{2259,561},{2262,616},{2330,0},{2324,0},{2301,484},{2321,0},{2253,607},{1749,754},{1128,767},{2333,0},{2336,0},{2306,0},{2339,0},{2283,561},{2301,688},{2301,714},{2262,608},{66,768},{2283,493},{2283,579},{2309,0},
{2348,0},{2351,0},{2633,0},{2352,356},{2352,363},{2352,601},{2364,683},{2364,685},{2369,0},{2375,0},{2364,682},{2370,705},{2360,0},{2364,684},{2363,0},{2357,0},{2402,0},{2390,0},{2399,0},{2396,0},{2352,605},{2393,0},{2384,0},{2385,263},{2405,0},{2408,0},{2417,0},{2414,0},{2420,0},{2411,0},{2364,680},{2352,690},{2352,684},{2364,689},{2429,0},{2385,260},{2432,0},{2444,0},{2441,0},{2438,0},{2352,677},{2364,678},{2451,603},{2454,688},{2459,0},{2451,487},{2447,0},{2454,711},{2450,0},{2468,0},{2462,0},{2465,0},{2474,0},{2471,0},{2352,260},{2627,0},{2630,0},{2364,675},{2621,0},{2624,0},{2352,675},{2364,679},{2486,0},{2352,685},{2352,681},{2352,682},{2364,690},{2492,0},{1128,818},{2522,0},{2510,0},{2519,0},{2454,714},{2525,0},{2454,708},{2526,68},{2507,0},{2516,0},{2498,0},{2364,646},{2364,677},{2352,263},{2495,0},{2501,0},{2513,0},{2504,0},{2489,0},{2567,0},{2546,0},{2547,22},{2531,0},{2534,0},{2352,683},{2352,680},{2364,681},{2561,0},{2558,0},{2451,604},{2543,0},{2537,0},{2540,0},{2579,0},{2570,0},{2588,0},{2594,0},{2576,0},{2615,0},{2618,0},{2454,484},{2477,0},{2597,0},{2600,0},{2601,868},{2640,985},{2654,0},{2651,0},{2648,0},{2672,0},{2661,792},{2669,0},{2657,0},{2678,0},{2679,891},{2660,0},{2703,900},{2699,0},{2709,807},{2708,0},{2718,905},{2729,0},{2735,0},{2732,0},{2738,0},{2744,0},{2433,915},{2748,917},{2759,0},{2762,0},{2973,990},{2765,0},{2780,0},{2774,0},{2775,923},{2768,0},{2790,929},{2963,0},{2805,934},{2819,0},{2610,982},{2822,0},{2831,0},{2828,0},{2834,0},{2837,0},{2864,0},{2883,946},{2892,854},{2889,962},{2882,0},{2850,952},{2847,948},{2855,0},{2876,0},{2861,0},{2895,955},{2879,0},{2550,957},{2843,0},{2921,0},{2925,974},{2918,0},{2571,977},{2915,0},{2930,0},{2906,0},{2478,937},{2810,0},{2801,0},{2949,984},{2607,1053},{2976,938},{2940,1052},{2982,793},{2664,993},{2682,995},{3000,898},{2991,1002},{3003,896},{2988,895},{3009,1004},{3015,907},{3024,808},{3030,913},{3039,1011},{3045,1016},{2781,1018},{3063,1022},{3057,1020},{3069,932},{3141,1049},{2634,1056},{3084,941},{3081,1026},{3042,1009},{3093,1032},{3087,956},{2553,1030},{3021,998},{3120,860},{3117,978},{3135,1041},{3126,861},{3129,979},{3108,1037},{3105,966},{3102,969},{3138,863},{3099,967},{3072,827},{3171,989},{2202,1051},{3243,1080},{3177,986},{3282,1095},{3186,999},{3183,998},{3189,897},{3201,908},{3192,904},{3207,1068},{3210,1009},{3213,918},{3209,0},{3051,1073},{3222,928},{3228,931},{3279,1092},{3273,1090},{3288,981},{3210,1012},{3183,1006},{3249,1038},{3246,1086},{3255,1044},{3252,970},{3297,1055},{3075,1079},{3180,881},{3174,879},{3264,1087},{3234,1101},{3144,1120},{3294,1125},{3312,1006},{3198,1103},{3195,1105},{3204,1107},{3318,1069},{3372,1054},{3327,1012},{3216,1110},{3320,0},{3338,0},{3339,1075},{3350,0},{3378,1097},{3342,1077},{3267,1123},{3366,1050},{3381,988},{3347,0},{3336,1100},{3386,0},{3357,1118},{3302,0},{3384,1116},{3308,0},{3387,1130},{3443,0},{3393,1115},{3321,1134},{3396,1007},{3399,1134},{3324,1133},{3405,1136},{3441,1130},{3411,1147},{3410,0},{3404,0},{3413,0},{3401,0},{3393,1111},{3407,0},{3414,1014},{3389,0},{3419,0},{3392,0},{3440,0},{3462,1146},{3438,1128},{3428,0},{3434,0},{3437,0},{3450,1139},{3426,1145},{3432,1102},{3351,1148},{3456,1121},{3468,1165},{3489,1186},{3483,1112},{3480,1161},{3477,1106},{3489,1133},{3492,1137},{3482,0},{3491,0},{3393,1166},{3421,1170},{3394,1185},{3546,1145},{3483,1186},{3549,1182},{3474,1102},{3531,1187},{3600,1163},{3561,1182},{3570,1163},{3567,1188},{3561,1100},{3573,1162},{3578,0},{3393,1195},{3514,1196},{3593,0},{3207,1197},{3432,1201},{3552,1201},{3609,1204},{3612,1187},{3615,1204},{3629,0},{3623,0},{3620,0},{3626,0},{3612,1165},{3393,1210},{3579,1204},{3614,0},{3508,1211},{3624,1204},{3612,1177},{3638,0},{3207,1213},{3612,1137},{3648,1217},{3656,0},{3645,1217},{3393,1222},{3393,1221},{3393,1223},{3393,1220},{3393,1227},{3502,1225},{3680,0},{3674,0},{3689,0},{3659,0},{3651,1199},{3657,1178},{3651,1201},{3690,1205},{3685,1231},{3592,1231},{3657,1146},{3701,0},{3704,0},{3710,0},{3719,0},{3716,0},
{3583,1240},{3393,1254},{3713,0},{3393,1244},{3393,1243},{3505,1241},{3393,1245},{3684,1242},{3738,1131},{3746,0},{3743,0},{3752,0},{3749,0},{3728,0},{3755,0},{3758,0},{3756,1111},{3761,0},{3708,1202},{3393,1235},{3460,1278},{3393,1255},{3472,1260},{3526,1262},{3726,1259},{3784,1172},{3771,1258},{3520,1263},{3792,1259},{3684,1259},{3792,1212},{3591,1264},{3424,1265},{3684,1264},{3726,1264},{3529,1267},{3393,1268},{3393,1269},{3393,1270},{3393,1271},{3779,0},{3685,1272},{3794,0},{3822,1111},{3696,1274},{3393,1276},{3833,0},{3393,1256},{3448,1280},{3466,1306},{3852,1212},{3851,0},{3591,1281},{3523,1285},{3866,0},{3636,1279},{3778,1289},{3726,1284},{3684,1284},{3792,1282},{3863,0},{3858,1212},{3846,1281},{3872,0},{3852,1286},{3846,1212},{3726,1281},{3852,1281},{3843,1212},{3684,1291},{3684,1282},{3777,1279},{3852,1264},{3591,1282},{3636,1291},{3684,1281},{3852,1259},{3591,1279},{3591,1286},{3876,1197},{3726,1291},{3792,1286},{3792,1281},{3792,1279},{3843,1259},{3852,1282},{3726,1286},{3858,1281},{3726,1282},{3861,1212},{3684,1286},{3684,1279},{3879,1197},{3858,1259},{3591,1291},{3846,1259},{3846,1279},{3858,1279},{3852,1279},{3852,1291},{3858,1291},{3726,1279},{3843,1279},{3636,1294},{3777,1291},{3843,1291},{3858,1282},{3792,1291},{3591,1294},{3684,1294},{3726,1294},{3852,1294},{3846,1291},{3792,1294},{3777,1294},{3839,0},{3843,1294},{3846,1294},{3873,1279},{3858,1294},{3430,1295},{3538,1296},{3544,1297},{3541,1298},{3875,0},{3837,1294},{3845,0},{3873,1294},{3727,1299},{3853,1299},{3902,0},{3853,1301},{3884,0},{3848,0},{3454,1304},{3848,0},{3923,0},{3847,1385},{3859,1374},{4137,1381},{3926,0},{3921,1393},{3938,0},{3931,1311},{3929,0},{3950,0},{3965,0},{3947,0},{3956,0},{3793,1314},{3958,1320},{3864,1309},{3927,1197},{3948,1197},{3980,0},{3853,1324},{3933,1283},{3877,1332},{4014,1282},{4028,0},{3880,1337},{3954,1286},{3858,1394},{3948,1327},{3927,1282},{4053,1286},{3960,1287},{4070,0},{4067,0},{4079,0},{4038,1342},{4026,1212},{3978,1212},{4097,0},{4114,1372},{4113,1294},{3873,1374},{4065,1281},{4133,0},{4139,0},{4142,0},{4154,0},{4163,0},{3793,1385},{4149,1279},{4166,0},{4167,1251},{4172,0},{4161,1273},{3937,1391},{3936,1294},{3874,1312},{4181,0},{4146,1380},{4145,0},{3859,1392},{4148,0},{4193,0},{4185,1393},{3921,1451},{4364,0},{4326,1444},{4146,1439},{4200,1399},{4190,0},{3939,1403},{3726,1401},{4207,1317},{3636,1401},{4208,0},{3846,1405},{4225,1349},{4222,1323},{4228,1325},{4213,1327},{4243,1334},{4229,0},{4240,1333},{4233,1259},{4238,0},{3852,1401},{4247,0},{3684,1401},{4253,0},{4255,1346},{4047,1408},{4002,1414},{3858,1401},{3591,1401},{3777,1401},{4041,1401},{3843,1401},{4260,1284},{3981,1401},{3792,1401},{3846,1401},{4274,0},{4282,1364},{3837,1426},{4232,0},{4289,0},{4293,1291},{4077,1401},{4203,1279},{4302,1264},{4308,1291},{4185,1451},{4314,1381},{4203,1383},{4200,1308},{4356,1398},{4203,1291},{4323,1251},{4328,0},{4323,1273},{4307,0},{4331,0},{4164,1446},{4343,0},{4346,0},{4352,0},{4365,1380},{4314,1453},{4137,1453},{4203,1294},{4365,1439},{4368,1396},{4371,1399},{4368,1463},{4374,1308},{4356,1522},{4572,1506},{4563,1461},{4374,1399},{4191,1463},{3967,1464},{4397,0},{4399,1406},{4394,0},{3844,1467},{4417,1329},{3951,1468},{4421,0},{4414,1330},{4411,1331},{4425,1281},{4429,1354},{4434,1310},{4418,0},{4433,0},{4420,1416},{4423,1335},{4415,0},{4400,0},{4430,0},{4439,0},{4451,0},{3993,1470},{4005,1474},{4450,1358},{4472,0},{4458,1284},{4457,0},{4475,0},{4454,0},{4469,0},{4489,1493},{4285,1494},{4460,0},{4503,1282},{4506,1281},{4490,0},{4511,0},{4514,0},{4305,1486},{4508,0},{4506,1294},{4194,1461},{4515,1308},{4356,1521},{4371,1308},{4356,1506},{4383,1522},{4560,1522},{4572,1522},{4518,1461},{4572,1521},{4563,1520},{4560,1506},{4194,1520},{4515,1399},{4521,1384},{4321,1507},{4532,0},{4527,1508},{4572,1398},{4527,1462},{4529,0},{4536,1444},{4533,1300},{4541,0},{4382,0},{4545,1514},{4536,1388},{4377,1396},{4571,0},{4575,1454},{4578,1529},{4587,1462},{4590,1508},{4593,1532},{4806,1390},{4606,1469},{4615,1328},{3798,1534},
{3870,1537},{4603,1266},{4609,1410},{4622,0},{4628,0},{4618,1336},{4627,1339},{4623,1416},{4619,0},{4630,1343},{4636,1345},{4638,1548},{4649,0},{4651,1419},{4648,1348},{4637,0},{4632,1242},{3987,1547},{4650,1419},{4663,1421},{4062,1553},{3984,1538},{4656,1315},{3990,1551},{4673,0},{4074,1555},{4675,1488},{4670,0},{4676,0},{4682,0},{4692,1405},{4678,1497},{4029,1543},{4696,1370},{4700,0},{4697,0},{4702,1435},{4706,0},{4709,0},{4479,1570},{4699,1375},{4721,0},{4723,1378},{4725,1286},{4731,1576},{4731,1529},{4737,1580},{4737,1578},{4734,1528},{4578,1588},{4752,1508},{4764,1528},{4578,1578},{4737,1588},{4728,1532},{4755,1508},{4524,1588},{4758,1508},{4593,1462},{4728,1508},{4731,1582},{4596,1587},{4734,1508},{4596,1582},{4746,1462},{4758,1528},{4749,1528},{4737,1585},{4731,1584},{4731,1585},{4737,1581},{4596,1588},{4740,1532},{4578,1580},{4578,1586},{4755,1462},{4749,1532},{4746,1508},{4743,1528},{4761,1528},{4767,1580},{4593,1528},{4758,1462},{4737,1531},{4740,1508},{4758,1532},{4734,1532},{4755,1528},{4587,1508},{4524,1587},{4752,1528},{4767,1584},{4767,1582},{4740,1528},{4767,1578},{4749,1462},{4731,1531},{4590,1462},{4578,1582},{4767,1531},{4740,1462},{4775,0},{4527,1532},{4772,0},{4587,1528},{4587,1532},{4731,1580},{4737,1583},{4596,1581},{4728,1528},{4578,1587},{4767,1509},{4578,1531},{4749,1508},{4737,1509},{4527,1528},{4737,1587},{4764,1462},{4781,0},{4731,1581},{4767,1576},{4782,1532},{4578,1583},{4731,1594},{4782,1528},{4590,1532},{4728,1462},{4731,1588},{4578,1530},{4767,1587},{4737,1586},{4737,1530},{4787,0},{4767,1529},{4731,1530},{4793,0},{4551,1599},{4805,0},{4601,0},{4583,0},{4803,1519},{4350,1601},{4578,1584},{4767,1530},{4578,1509},{4731,1583},{4752,1462},{4731,1587},{4731,1578},{4767,1581},{4578,1594},{4578,1585},{4731,1586},{4737,1584},{4578,1576},{4737,1582},{4578,1581},{4386,1587},{4731,1509},{4767,1588},{4386,1581},{4782,1462},{4590,1528},{4767,1585},{4755,1532},{4737,1529},{4737,1576},{4746,1528},{4767,1583},{4593,1508},{4737,1594},{4767,1594},{4524,1581},{4782,1508},{4734,1462},{4767,1586},{4752,1532},{5297,0},{4820,0},{4554,1751},{5265,1448},{5288,0},{5294,0},{4850,0},{4841,0},{4837,1341},{4847,0},{4834,1340},{4844,0},{4835,0},{4854,1291},{4862,0},{4859,0},{4866,1197},{4851,1480},{4865,0},{4870,1347},{4892,0},{4895,0},{4882,1422},{4873,1350},{4035,1629},{4861,1481},{4023,1612},{4886,0},{4044,1626},{4877,0},{4907,0},{4900,1361},{4904,0},{4898,0},{4910,0},{4913,0},{4923,1563},{4926,1259},{4914,1561},{4858,1423},{4919,0},{4922,0},{4921,1369},{4874,0},{4041,1623},{4929,1432},{4940,0},{4901,0},{4934,0},{4937,0},{4125,1648},{4943,0},{4947,1294},{4266,1627},{4956,1426},{4952,0},{4951,1376},{4961,0},{4964,0},{4936,1433},{4311,1655},{4970,0},{4979,0},{4976,0},{5339,0},{4973,0},{5342,0},{4982,0},{4985,0},{5018,0},{5045,0},{5000,0},{5069,0},{5021,0},{5066,0},{5054,0},{5051,0},{5291,0},{4994,0},{4988,0},{4991,0},{5048,0},{4997,0},{5012,0},{5072,0},{5039,0},{5042,0},{5033,0},{5015,0},{5075,0},{5036,0},{5009,0},{5063,0},{5318,0},{5057,0},{5060,0},{5030,0},{5024,0},{5027,0},{5279,0},{5369,0},{5273,0},{5351,0},{5003,0},{5366,0},{4823,0},{5006,0},{5312,0},{4826,0},{5303,0},{5372,0},{4829,0},{5081,0},{5120,0},{5078,0},{5171,0},{5084,0},{5144,0},{5141,0},{5159,0},{5156,0},{5174,0},{5162,0},{5165,0},{5126,0},{5123,0},{5150,0},{5363,0},{4776,1717},{5306,0},{5129,0},{5087,0},{5090,0},{5114,0},{5102,0},{5168,0},{5324,0},{5111,0},{5108,0},{5135,0},{5099,0},{5096,0},{5177,0},{5345,0},{5117,0},{5132,0},{5105,0},{5093,0},{5360,0},{5138,0},{5219,0},{5180,0},{5216,0},{5228,0},{5357,0},{5354,0},{5204,0},{5327,0},{5192,0},{5276,0},{5231,0},{5210,0},{5222,0},{5321,0},{5300,0},{5225,0},{5207,0},{5285,0},{5213,0},{5189,0},{5282,0},{5315,0},{5183,0},{5195,0},{5201,0},{5186,0},{5237,0},{5234,0},{5270,0},{5309,0},{5348,0},{5336,0},{5243,0},{5330,0},{5246,0},{5333,0},{5247,1600},{4344,1751},{5252,0},{5256,1753},{5856,1956},{5376,1795},{5919,1880},{5862,1920},{5405,0},{5398,1344},{5391,1800},{5406,1798},{4269,1806},{5421,1279},{4032,1799},
{5431,1353},{5427,1482},{5404,1357},{5412,1242},{5391,1478},{5426,0},{4443,1805},{4020,1803},{4845,1820},{5453,0},{5449,1362},{4245,1818},{5459,0},{5436,1811},{5447,0},{5443,1487},{5472,1495},{5450,0},{5475,1498},{5467,1366},{5478,1562},{5484,1401},{4107,1832},{4059,1810},{5507,0},{5502,1279},{5468,0},{5444,0},{5483,0},{5492,0},{5493,1499},{5491,1829},{5501,0},{5489,0},{5500,1644},{5520,1433},{4083,1838},{5510,0},{5525,0},{5534,0},{5529,1284},{4942,1836},{5543,0},{5537,0},{5538,1294},{5544,1572},{4963,1845},{5552,0},{4969,1851},{5555,0},{5571,1854},{5559,1855},{5574,1859},{5601,1883},{5586,1890},{5667,1899},{5634,1879},{5646,1897},{5388,1792},{5595,1868},{5559,1886},{5649,1861},{5676,1881},{5631,1876},{5385,1869},{5577,1885},{5688,1880},{5622,1860},{5682,1872},{5652,1860},{5673,1898},{5661,1870},{5664,1889},{5619,1893},{5613,1864},{5694,1895},{5652,1866},{5589,1875},{5754,1893},{5610,1939},{5784,1873},{5595,1881},{5613,1932},{5616,1928},{5712,1916},{5643,1906},{5628,1926},{5646,1874},{5751,1937},{5598,1934},{5796,1924},{5583,1897},{5694,1886},{5760,1936},{5730,1901},{5793,1929},{5759,0},{5790,1921},{5196,1877},{5673,1923},{5739,1908},{5805,1869},{5733,1874},{5799,1869},{5649,1900},{5817,1873},{5736,1906},{5775,1901},{5586,1863},{5196,1928},{5664,1858},{5709,1905},{5820,1936},{5745,1938},{5595,1907},{5727,1922},{5832,1946},{5862,1889},{5853,1939},{5856,1915},{5886,1934},{5577,1905},{5799,1950},{5868,1866},{5703,1961},{5604,1884},{5667,1913},{5826,1941},{5583,1938},{5835,1921},{5562,1961},{5907,1950},{5856,1927},{5775,1882},{5874,1928},{5724,1929},{5880,1916},{5856,1958},{5634,1931},{5625,1746},{5844,1953},{5373,1915},{5592,1906},{5736,1938},{5721,1926},{5742,1965},{5565,1870},{5688,1964},{5829,1895},{5865,1895},{5847,1897},{5916,1882},{5658,1961},{5838,1925},{5571,1932},{5724,1902},{5907,1965},{5928,1927},{5196,1893},{5637,1880},{5790,1870},{5829,1934},{5388,1885},{5769,1963},{5910,1934},{5868,1876},{5670,1859},{5919,1966},{5844,1901},{5820,1930},{5898,1927},{5904,1890},{5820,1968},{5808,1916},{5922,1918},{5913,1902},{5733,1880},{5850,1974},{5736,1869},{5760,1859},{5820,1931},{5832,1951},{5799,1967},{5844,1941},{5856,1908},{5772,1869},{5871,1855},{5877,1911},{5919,1867},{5559,1899},{5589,1885},{5649,1917},{5637,1902},{5862,1795},{5874,1970},{5919,1972},{5868,1938},{5196,1869},{5895,1949},{5862,1913},{5700,1957},{5829,1902},{5826,1975},{5748,1910},{5862,1884},{5760,1934},{5847,1923},{5724,1903},{5640,1964},{5373,1929},{5814,1860},{5790,1596},{5649,1854},{5880,1906},{5832,1857},{5727,1872},{5895,1929},{5826,1939},{5913,1879},{5913,1935},{5850,1926},{5643,1923},{5811,1918},{5676,1928},{5769,1953},{5613,1867},{5727,1932},{5559,1929},{5790,1960},{5865,1956},{5376,1960},{5196,1960},{5727,1959},{5595,1920},{5928,1791},{5745,1966},{5685,1901},{5862,1887},{5838,1918},{5787,1905},{5877,1975},{5646,1928},{5847,1882},{5877,1896},{5388,1886},{5562,1949},{5730,1896},{5871,1887},{5742,1889},{5922,1928},{5583,1872},{5928,1862},{5589,1948},{5886,1885},{5658,1885},{5763,1884},{5571,1922},{5904,1911},{5727,1967},{5730,1929},{5676,1863},{5583,1896},{5925,1887},{5385,1906},{5811,1746},{5889,1932},{5610,1934},{5559,1953},{5841,1923},{5676,1897},{5862,1792},{5901,1946},{5901,1974},{5601,1795},{5841,1915},{5733,1877},{5933,0},{5724,1876},{5850,1874},{5754,1876},{5571,1964},{5859,1897},{5385,1949},{5712,1936},{5381,0},{5936,0},{5724,1886},{5799,1926},{5814,1895},{5799,1948},{5853,1860},{5670,1922},{5676,1926},{5577,1899},{5373,1928},{5832,1746},{5694,1942},{5733,1962},{5913,1891},{5604,1949},{5625,1886},{5856,1862},{5697,1974},{5829,1876},{5598,1885},{5610,1916},{5673,1897},{5595,1969},{5745,1975},{5853,1871},{5925,1878},{5942,0},{5583,1864},{5841,1946},{5616,1873},{5904,1873},{5868,1927},{5763,1903},{5850,1899},{5646,1937},{5574,1932},{5790,1911},{5712,1860},{5910,1903},{5562,1953},{5901,1925},{5694,1732},{5922,1885},{5373,1924},{5769,1885},{5739,1876},{5772,1893},{5814,1964},{5871,1866},{5574,1894},{5727,1968},{5823,1970},{5721,1972},{5658,1937},
{5751,1929},{5832,1962},{5676,1891},{5823,1795},{5574,1899},{5661,1873},{5625,1853},{5898,1894},{5613,1921},{5865,1957},{5820,1969},{5589,1924},{5919,1955},{5895,1746},{5592,1929},{5574,1893},{5742,1928},{5388,1910},{5853,1970},{5868,1936},{5814,1873},{5817,1879},{5664,1924},{5583,1857},{5598,1922},{5823,1746},{5760,1885},{5748,1874},{5718,1905},{5889,1925},{5646,1953},{5820,1934},{5712,1900},{5754,1879},{5721,1857},{5814,1910},{5910,1866},{5667,1876},{5601,1922},{5616,1908},{5751,1961},{5388,1969},{5835,1895},{5703,1964},{5910,1897},{5694,1933},{5670,1931},{5838,1895},{5817,1905},{5790,1938},{5769,1870},{5388,1963},{5745,1948},{5832,1853},{5589,1913},{5667,1923},{5853,1746},{5889,1943},{5796,1887},{5850,1893},{5643,1974},{5577,1962},{5625,1929},{5922,1911},{5814,1922},{5718,1903},{5916,1963},{5853,1864},{5604,1939},{5760,1886},{5676,1890},{5871,1869},{5727,1894},{5823,1860},{5865,1855},{5694,1857},{5781,1961},{5730,1964},{5727,1918},{5697,1937},{5574,1874},{5559,1864},{5673,1875},{5790,1854},{5721,1876},{5634,1746},{5694,1863},{5604,1855},{5577,1938},{5919,1975},{5712,1963},{5787,1901},{5829,1860},{5652,1901},{5667,1922},{5649,1957},{5832,1907},{5388,1859},{5928,1894},{5826,1899},{5853,1961},{5754,1943},{5745,1914},{5580,1903},{5565,1956},{5652,1864},{5853,1906},{5775,1876},{5751,1916},{5799,1968},{5862,1955},{5697,1962},{5688,1902},{5844,1974},{5835,1946},{5754,1895},{5877,1966},{5613,1957},{5946,1891},{5959,1352},{4056,1986},{5963,0},{5966,0},{4071,1985},{5454,1997},{5990,0},{5972,0},{5969,0},{5440,1993},{5977,1425},{5975,0},{5992,1818},{5999,0},{5983,1363},{5987,0},{5996,0},{6022,1430},{6000,1616},{6011,0},{6018,1823},{6007,1492},{6003,1821},{6026,0},{5981,0},{6032,0},{6038,0},{5984,0},{4275,1992},{6034,1373},{6027,1212},{6023,0},{6008,0},{6017,0},{6048,1837},{4461,2019},{6051,1228},{4098,2018},{6047,0},{6068,0},{6035,0},{6072,1839},{6063,2025},{6041,0},{6044,0},{6086,0},{5526,2029},{6083,0},{6025,2023},{6098,0},{6090,1651},{6108,1282},{5547,2035},{5551,2037},{6113,0},{5556,2041},{6126,2043},{6168,1907},{6204,2067},{6174,1864},{6141,2048},{6183,1903},{6198,2045},{6177,1902},{6189,1866},{6186,1927},{6195,2064},{6138,2069},{6147,1926},{6165,1914},{6150,2052},{6159,1907},{6171,2054},{6153,2060},{6249,1947},{6270,2091},{6312,2100},{6321,1957},{6318,2103},{6228,2082},{6303,1887},{6231,1963},{6276,1924},{6225,2073},{6258,1959},{6255,1871},{6222,2102},{6210,2096},{6234,2072},{6213,1966},{6252,1877},{6285,1945},{6265,1386},{6294,2103},{6243,2079},{6282,2097},{6165,1910},{6360,2126},{6366,1960},{6345,1955},{6414,2128},{6441,2123},{6351,2119},{6423,2139},{6372,1872},{6399,1877},{6336,1967},{6426,1894},{6180,1866},{6381,1915},{6396,1928},{6126,1968},{6288,2116},{6408,1905},{6321,1944},{6393,1941},{6411,1967},{6333,1963},{6363,2102},{6420,1906},{6339,1958},{6342,2130},{6375,1961},{6267,1966},{6516,2051},{6525,2069},{6438,2145},{6540,1862},{6444,1960},{6471,1943},{6528,1862},{6531,1918},{6525,2125},{6462,1965},{6441,1878},{6501,2131},{4158,2088},{6186,1874},{6432,1881},{6240,1949},{6459,2152},{6447,2172},{6207,1795},{6441,1860},{6537,1935},{6543,2151},{6492,2143},{6534,1925},{6447,2163},{6495,2162},{6507,2168},{6519,2174},{6468,1867},{6474,1913},{6513,1926},{6549,1913},{6627,1918},{6561,2093},{6618,1888},{6615,1914},{6564,2186},{6582,1894},{6597,2202},{6567,1892},{6588,1945},{6591,1951},{6585,1889},{6636,1888},{6642,1935},{6489,1914},{6594,2185},{6573,2193},{6576,1972},{6660,1887},{6612,1732},{6651,1965},{6657,1861},{6252,2131},{6648,2215},{6654,2210},{6600,1934},{6186,2103},{6708,2235},{6714,1953},{6675,1871},{6678,1971},{6672,1879},{6663,1975},{6666,1972},{6372,1860},{6477,2060},{6738,1890},{6699,1933},{6702,1879},{6711,1897},{6687,2107},{6174,1970},{6561,1870},{6732,2243},{6189,1864},{6372,1864},{6747,2250},{6774,1968},{6741,2248},{6375,1939},{6753,1916},{6783,1880},{6765,1948},{6348,1922},{6759,2254},{6810,1947},{6807,2272},{6819,1893},{6795,1937},{6852,1888},{6849,1943},{6846,1862},{6822,2275},{6831,2276},{6876,2293},{6861,1863},
{6858,1901},{6864,1935},{6129,1955},{6873,1964},{6867,1921},{6885,1935},{6882,2257},{6894,2297},{6639,1861},{6888,1905},{6903,1944},{6900,1947},{6918,2305},{6921,2312},{6906,1945},{6924,2304},{6786,1951},{6942,2313},{6945,2210},{6816,1959},{6957,1947},{6954,1926},{6867,1867},{6963,1887},{6960,1912},{6966,1893},{6825,1922},{6969,1894},{6975,1913},{6972,1958},{6138,1936},{6987,1857},{6990,1975},{6984,1912},{6996,1885},{6483,2163},{7020,2339},{7002,2336},{7014,2305},{7005,1971},{7032,1958},{7035,1792},{7029,1899},{7023,1881},{6279,1867},{6711,1959},{6189,2140},{7047,1883},{7041,1895},{7044,1926},{7050,2351},{7065,2354},{6429,1966},{6363,2051},{7074,2359},{7068,1914},{7080,1947},{7083,1863},{7089,1948},{7101,1902},{7107,1885},{7113,1897},{7110,1946},{6996,1868},{7122,2373},{7125,1908},{6516,1795},{7131,1962},{7143,1874},{7137,1940},{6669,1746},{7149,1963},{7155,1911},{5952,2384},{7158,1878},{7170,1963},{6165,2102},{7077,1853},{7176,1935},{7179,1862},{7182,1967},{7188,2395},{7194,1917},{7191,1925},{6390,2256},{7206,1958},{7212,1873},{7209,1963},{6222,1884},{7344,2441},{7197,1934},{6192,1957},{6288,2103},{7224,1892},{6171,1915},{7230,1924},{7227,1862},{5952,1796},{7239,1965},{7242,1897},{6498,2415},{7236,2275},{7260,2106},{7251,1948},{6126,2223},{6447,2055},{7257,2418},{6717,1939},{6960,2167},{6720,2200},{6192,1900},{7287,1971},{7284,1966},{7281,1862},{7107,2096},{7290,1909},{7293,1912},{6600,1936},{7305,1920},{7302,2436},{7311,1921},{7341,2442},{7329,2444},{5943,1791},{6558,1972},{7215,2406},{7335,1971},{7200,1893},{7320,1938},{7347,2401},{7359,2452},{7355,0},{7351,1360},{7364,0},{7398,2465},{7374,2457},{7381,2005},{6012,2459},{7388,0},{7393,1368},{7367,0},{7394,0},{7418,0},{7412,0},{7415,0},{7414,2472},{7403,0},{7406,0},{4089,2477},{4476,2482},{7440,1294},{4080,2450},{7402,1827},{7380,2483},{7439,0},{4290,2481},{7436,0},{5439,2474},{7379,0},{7386,2475},{6069,2473},{7457,0},{7460,0},{4119,2490},{7463,0},{7482,2493},{7475,0},{7438,2022},{7478,0},{7491,1571},{7490,0},{7454,0},{7502,0},{7496,0},{7508,0},{7505,0},{6117,2504},{7517,0},{7518,2044},{7527,1796},{7536,2510},{7548,2099},{7533,1951},{6240,2518},{7542,2087},{7539,1872},{7551,2519},{7566,2105},{7563,2213},{7560,1910},{7521,2508},{7569,2093},{7545,2089},{7620,1925},{7605,2129},{7593,2529},{7584,2110},{7611,2533},{7596,2536},{7602,1941},{7629,2545},{7581,2544},{7575,2526},{7614,2059},{7674,1936},{7698,2570},{7692,1894},{7707,1896},{7662,1953},{7716,1931},{7647,2160},{7677,2166},{7671,1795},{7653,2182},{7704,2161},{7644,2155},{7638,2150},{7656,2550},{7680,1922},{7686,2561},{7689,2532},{7665,1955},{7695,2170},{7521,2556},{7734,1936},{7776,1853},{7779,1935},{7764,2207},{7752,1946},{7587,2065},{7746,2201},{7761,2591},{6561,2597},{7812,2601},{7806,2603},{7760,0},{7767,2208},{7785,2590},{7755,2596},{7734,2159},{7794,2203},{7884,2629},{7860,2612},{7875,2242},{7827,2228},{7812,2223},{7602,1922},{7851,2230},{7857,2232},{7890,2245},{7848,2613},{7842,2573},{7878,2241},{7938,1732},{7923,2252},{7899,2635},{7914,2636},{7932,2260},{7941,1931},{7929,1875},{7920,2043},{7926,2257},{7956,1940},{7965,2267},{7947,1917},{7950,1910},{7971,2271},{7977,2651},{7989,2285},{7710,2114},{7983,2660},{7617,1864},{8006,0},{7524,2664},{8001,2172},{7998,2074},{7941,1792},{6477,2669},{8010,2671},{8025,1916},{6405,2550},{8043,2311},{6720,2679},{8058,2683},{8055,2317},{7668,2135},{8052,2080},{8061,1854},{8085,1916},{8079,1857},{7818,2114},{6867,2691},{8091,1877},{8064,2606},{8103,1941},{8097,2327},{8100,2326},{8112,2331},{8109,2702},{7941,1945},{8124,2710},{8136,2711},{8142,2346},{8139,2200},{8145,1858},{8067,2093},{8151,1927},{8154,2719},{6720,2713},{8172,2357},{8178,2054},{7569,2114},{8175,2727},{8184,2364},{8187,2365},{8190,2368},{7668,2352},{8037,2716},{8193,1896},{8202,1927},{8208,2376},{8211,1949},{8214,2378},{8220,2382},{8067,2055},{8223,1902},{8232,2743},{8235,2388},{7956,1896},{6369,2756},{6501,2643},{8244,2749},{8139,2069},{8256,2751},{8259,2754},{7650,2102},{8379,2149},{8268,2130},{8271,2758},{8370,2791},
{8265,1900},{8382,2795},{8286,1948},{8289,1917},{7671,2175},{8295,2411},{8298,2767},{8073,1904},{7680,2768},{8316,2674},{8307,2770},{7263,2771},{7593,2116},{8328,2690},{8325,1953},{8334,2425},{8319,2116},{7803,2716},{8322,2189},{8340,2684},{8349,2782},{8355,2131},{8361,2786},{8343,2432},{8304,2123},{8319,2552},{8283,2407},{8394,2666},{8391,2446},{8277,1901},{8364,2439},{8400,3012},{9108,2796},{8403,2456},{8412,2463},{8410,1367},{8406,2461},{6030,2809},{8417,0},{6012,2811},{8431,2012},{8432,0},{8424,2469},{8420,0},{8423,0},{4104,2812},{8445,2813},{4101,2803},{8451,2020},{8481,2488},{8470,2484},{8480,0},{8468,0},{8475,2489},{8459,0},{8465,0},{8462,0},{8422,2806},{8474,0},{8486,0},{8495,0},{8496,2833},{8515,2836},{8504,0},{8505,2495},{8522,0},{8469,2842},{8510,0},{8523,2499},{6102,2843},{8543,0},{8530,2034},{6115,2840},{8544,1856},{8547,1795},{9123,2792},{8568,2541},{8550,2108},{8553,2060},{8583,2539},{8580,2862},{8565,2524},{8556,2135},{8559,2134},{8571,2858},{8562,2109},{8589,2530},{8577,1792},{8622,1927},{8601,2547},{8616,2873},{8607,2871},{8604,2864},{7659,2865},{7797,2894},{8649,1871},{8667,1923},{8640,2580},{8625,2190},{8628,2879},{8631,2859},{8676,1853},{8652,2594},{8655,2211},{8679,2600},{8634,2581},{8661,2102},{8664,2887},{8643,2576},{8700,1866},{8721,2623},{8730,2239},{8715,2103},{8709,2899},{8703,2611},{8733,2624},{8706,2908},{8694,2606},{8685,1968},{8712,2890},{8688,2608},{7815,2899},{8757,1955},{8742,2648},{8766,1927},{8748,2639},{6309,2920},{8790,1930},{8784,1965},{8553,2103},{8787,1970},{8772,2264},{8805,2278},{8799,1970},{8820,2665},{8826,1897},{8835,2299},{8832,1956},{8838,2674},{8841,1958},{8715,2147},{8844,1904},{8850,2682},{8859,2952},{8862,2583},{8871,1868},{8868,2688},{8874,2692},{8877,2696},{8883,2059},{8886,1931},{8889,2256},{8892,2886},{6405,2966},{7872,2865},{8904,1954},{8118,2970},{8400,2074},{8922,2973},{8925,2716},{8931,2720},{8904,2123},{8946,2981},{8967,2733},{8970,2372},{8694,2106},{8691,1897},{8925,2175},{8976,2604},{7872,2993},{8988,2742},{8991,2583},{8916,2985},{8997,1732},{8979,2669},{9000,2369},{9003,1865},{7911,2890},{9009,1934},{9114,3039},{9021,2887},{8631,2518},{9033,2799},{9096,2789},{9042,2764},{9045,1920},{9057,1957},{9054,2416},{6405,2998},{8862,3022},{8331,2973},{6999,3012},{8760,1903},{8637,2555},{9063,2239},{8853,2238},{9060,2538},{9084,1859},{9069,2426},{7560,2968},{9030,2760},{9126,3035},{9143,0},{9139,1500},{9137,0},{9134,0},{9146,0},{9162,3055},{4500,3046},{9152,0},{9161,0},{9156,2476},{9153,3049},{9176,0},{9179,0},{9170,0},{9173,0},{9201,3066},{8416,3051},{8449,3047},{9206,0},{6093,3070},{8517,3071},{9194,0},{6079,3045},{9182,0},{9185,0},{9221,0},{6100,3075},{9218,0},{9184,3060},{6114,3076},{9233,0},{8514,3078},{9239,0},{9227,0},{9242,0},{9238,2503},{9251,0},{4774,3084},{9254,0},{9255,1884},{9267,2866},{9258,2997},{9279,2159},{7713,3098},{9282,3097},{9276,3088},{9270,2870},{9261,2552},{9288,2567},{9273,3095},{8673,3104},{9291,2890},{9309,3088},{9306,1893},{8658,3092},{9303,3100},{9297,2184},{9354,2627},{7821,3108},{9345,1921},{8727,3105},{9351,2240},{9321,2227},{9327,2610},{9336,2618},{9339,3119},{7560,3114},{9333,3110},{9387,3131},{9369,2637},{9396,2161},{9387,2597},{9390,3127},{8739,3125},{9378,2912},{9384,2256},{9372,2917},{9399,2263},{9405,2656},{9411,2658},{9402,3116},{9357,1929},{9423,2281},{9417,2279},{9429,2223},{9432,2290},{9435,2673},{9438,2676},{9441,2680},{9444,2309},{9450,2310},{8853,3151},{9456,2316},{9345,2240},{9468,2694},{9465,2262},{9483,2698},{9486,1921},{9489,2965},{9492,2096},{9339,2320},{9282,1963},{9495,2705},{9504,2511},{9306,2939},{9291,2093},{9525,2735},{9528,2637},{9531,1915},{9537,2380},{9342,2059},{9546,1855},{9549,2084},{9552,2746},{9558,2391},{9564,2332},{9621,3029},{9258,3102},{9633,3037},{9594,3086},{9591,2422},{9429,3116},{9594,2172},{9462,3151},{9618,3205},{9612,3027},{9342,2275},{9603,3200},{9597,3025},{9609,1910},{9627,2784},{9624,2433},{9573,3192},{9570,3006},{9636,3043},{9648,2818},{8448,3213},{9642,2814},{6078,3215},{9659,0},{9668,0},
{9671,0},{9651,3221},{9656,0},{8490,3221},{8487,3220},{9672,3063},{9186,3225},{9678,3065},{9643,2470},{9689,0},{9686,0},{9692,0},{9688,3228},{9711,3236},{9702,3074},{9707,0},{9701,0},{9699,3231},{9698,0},{9696,2498},{9719,0},{7509,3245},{9734,0},{6099,3246},{9728,0},{9725,0},{9741,2846},{9746,0},{5145,3251},{7626,3250},{9756,2118},{9783,2213},{9771,3262},{9762,2555},{9777,2882},{9774,2114},{9780,2583},{9759,2579},{9768,2577},{9765,2574},{9807,3116},{9792,2200},{9795,3102},{9801,2140},{9798,1878},{9825,2898},{9816,1918},{9834,2645},{9822,3122},{9813,2631},{9810,2923},{6639,3276},{9831,2632},{9861,3108},{9858,3285},{9852,2614},{9867,2932},{9864,3283},{9843,2544},{9846,2931},{9882,1796},{9873,2106},{9876,2662},{9897,2678},{9903,2102},{9906,1865},{9918,2046},{9915,2955},{9912,3154},{9924,2960},{9831,3302},{9933,2969},{9840,2333},{9942,3166},{9936,2337},{9948,3170},{9795,1940},{9519,3318},{9951,2058},{9789,2060},{9957,2849},{9960,3178},{9966,2739},{9972,2387},{9969,2665},{9783,2550},{6279,3290},{9873,2887},{9630,3301},{9582,3331},{9987,3280},{10038,3193},{9789,2055},{9996,2046},{9903,3012},{6999,3319},{10005,2864},{9072,3333},{10026,2438},{10008,3329},{10011,3338},{10023,3195},{10035,3193},{9990,3347},{10305,2991},{10335,3444},{10362,3453},{10055,0},{10052,0},{10046,0},{10049,0},{9207,3356},{10076,0},{10073,0},{10059,3354},{10079,0},{10087,3072},{10085,0},{9706,3361},{10082,0},{10088,0},{9691,3359},{10106,0},{10103,0},{10121,0},{10115,0},{10089,3364},{8532,3372},{9204,3370},{9718,3368},{10127,0},{8535,3378},{10133,0},{6121,3380},{10142,0},{10148,0},{10152,2573},{10161,3106},{10164,3391},{9804,3391},{10158,3263},{10176,1920},{10179,2621},{10155,2897},{10167,2615},{10170,2231},{10194,1955},{10191,2259},{10185,3120},{10182,2256},{9819,3396},{10203,3404},{10200,2065},{10209,2653},{10206,2925},{10173,2632},{9879,3410},{10239,2937},{10236,2936},{10233,3142},{10326,3443},{10242,2939},{10230,3300},{9795,3417},{10257,1906},{10263,3422},{10269,3159},{8694,3410},{10278,3313},{10275,2074},{10284,2709},{10281,2707},{10287,2721},{7059,3430},{7560,3431},{10296,2362},{7056,3347},{10299,2167},{8964,3400},{10263,3436},{10269,2074},{10311,2998},{10314,2389},{10194,2963},{10212,2107},{10317,3431},{7056,3422},{9024,3414},{10269,3195},{10338,3094},{10308,2149},{9261,3404},{10341,2779},{6711,3392},{10176,3290},{10248,3269},{10002,3384},{10353,3417},{10365,3437},{10371,3456},{10379,0},{10224,3508},{9681,3464},{10056,3462},{10065,3463},{8511,3461},{10401,3466},{10406,0},{10397,0},{10107,3471},{10095,3469},{10410,3473},{10422,3240},{10448,0},{10443,3479},{10434,3479},{10442,0},{10411,3360},{9729,3477},{10122,3476},{10417,3468},{10457,0},{10395,3379},{9243,3484},{10463,0},{6120,3488},{9247,3485},{10381,3514},{10382,0},{10544,0},{10470,2575},{9837,3492},{10484,0},{10491,2634},{10497,2918},{10479,3121},{10494,2921},{9840,3496},{10485,1969},{10473,2915},{10509,2654},{10500,1867},{10503,3504},{10506,2927},{10521,2556},{10515,3140},{10542,3460},{10527,2664},{10530,3415},{10539,3512},{10524,3100},{10545,2605},{10551,2689},{10254,3516},{10554,2690},{10560,3388},{10563,3424},{10569,2342},{10566,3167},{7668,3496},{10572,3425},{10578,2352},{10581,2723},{10578,3513},{10587,2984},{10584,2366},{10503,2852},{10590,2688},{8961,3508},{10596,2732},{10479,2919},{10536,3458},{10602,2966},{10599,2995},{10605,3125},{10611,1864},{10614,2229},{10617,3328},{10620,3441},{7791,3536},{10632,1934},{10374,2074},{10041,3524},{10638,3026},{9606,3547},{10344,3545},{10644,2352},{10644,3276},{10020,3507},{10539,3518},{5949,3458},{10661,0},{10676,0},{10670,0},{10679,0},{10673,0},{10416,3561},{9723,3562},{10694,0},{10691,0},{10700,0},{10697,0},{10669,3366},{10706,0},{10716,3571},{10715,0},{10718,0},{10721,0},{10426,3557},{10724,0},{9220,3559},{10733,0},{9246,3575},{10730,0},{10739,0},{10742,0},{4335,3582},{4794,3583},{4539,3581},{4341,3554},{4791,3581},{4380,3583},{3909,3583},{10752,2622},{4341,3583},{3825,3554},{4548,3582},{4335,3554},{3882,3583},{10380,3583},{3642,3554},{10776,2266},
{10779,3588},{10773,3406},{10767,2262},{10197,3590},{10761,2926},{5937,3582},{6804,3582},{10755,3136},{10758,3582},{10782,2934},{4815,3583},{4380,3554},{3909,3554},{4830,3583},{10790,0},{4599,3554},{10785,2280},{10797,3296},{4548,3583},{4830,3582},{10667,0},{10794,3121},{10812,2879},{8829,3582},{5934,3581},{5379,3583},{10806,3298},{4335,3583},{4794,3582},{4809,3554},{4794,3554},{10809,3275},{5262,3582},{4830,3554},{6909,3582},{4581,3581},{4599,3583},{4548,3554},{4815,3582},{4809,3583},{4809,3582},{10821,3420},{9471,3606},{3882,3554},{10557,3608},{10827,3310},{10830,3315},{10836,3525},{10833,2107},{10842,2976},{10839,2972},{10845,3172},{10851,2979},{10857,2928},{8955,3618},{10860,2121},{10866,3531},{10302,3624},{10875,3159},{10881,3626},{10779,2213},{10884,3597},{10770,3611},{10791,2106},{10887,2750},{9900,3588},{10890,2573},{10320,3618},{10929,3551},{5382,3554},{10926,3593},{10659,3460},{10896,3541},{10857,2046},{5379,3554},{5382,3583},{10626,3633},{5262,3554},{3882,3582},{5262,3583},{5382,3582},{10902,2423},{10905,2424},{10908,3134},{10920,3550},{10917,3030},{10923,3549},{10932,3040},{4815,3554},{10936,3459},{10935,3554},{10893,3750},{10656,3773},{11316,3034},{10098,3647},{10425,3649},{10680,3646},{9714,3648},{10955,0},{10952,0},{10962,3655},{10976,0},{10988,0},{10970,0},{10977,3660},{10458,3661},{10998,3578},{10996,3249},{9747,3665},{11007,3578},{4335,3645},{11021,0},{4794,3645},{11012,0},{11018,0},{11015,0},{3642,3645},{11027,0},{11024,0},{11000,0},{11045,0},{11042,0},{11036,0},{3909,3645},{11030,0},{11031,2130},{11039,0},{10936,3683},{11054,0},{11048,0},{4809,3645},{4548,3645},{3778,3691},{3844,3692},{11055,3677},{11058,3407},{11064,3506},{11079,2938},{11082,1294},{11070,3597},{11067,3409},{11270,0},{11061,3138},{10248,3695},{11105,0},{11046,3700},{4380,3645},{11099,0},{11090,0},{11093,0},{11096,0},{11111,0},{11117,0},{11114,0},{11264,0},{4341,3645},{4815,3645},{11121,3601},{3882,3645},{11150,0},{11132,0},{11135,0},{3883,3709},{11147,0},{11151,3149},{11144,0},{11138,0},{11136,3706},{11124,3605},{11141,0},{11159,0},{4830,3645},{3838,3720},{11156,0},{11171,0},{4599,3645},{11168,0},{11165,0},{11180,0},{11177,0},{11174,0},{11189,0},{11184,3307},{11181,3158},{11190,3160},{11193,2967},{11196,2971},{11202,1855},{11201,0},{11205,3169},{11211,2722},{11214,2980},{11220,2332},{11217,1969},{10863,3741},{11226,3623},{11229,3321},{11232,3180},{11235,3181},{11238,3536},{11241,3185},{8241,3748},{11253,3749},{11256,2140},{11273,0},{11274,3009},{11277,2069},{5262,3645},{5382,3645},{11285,0},{11282,0},{11294,0},{11286,3196},{11291,0},{5379,3645},{11300,0},{9393,3695},{11297,0},{11301,3768},{10347,3690},{11307,3339},{11267,0},{11310,3452},{11324,0},{11313,3343},{11327,0},{11335,3459},{11330,0},{4599,3827},{11336,0},{11342,0},{11348,0},{11351,0},{11345,0},{11352,3567},{10959,3785},{11358,3662},{11360,0},{11375,0},{9744,3791},{11378,0},{11384,0},{10149,3795},{11390,0},{11732,0},{9745,3791},{11396,0},{11397,3800},{11409,3804},{11408,0},{11429,0},{10215,3811},{11441,0},{11446,3596},{11478,3702},{11484,2941},{11457,1281},{4791,3813},{11453,0},{11450,0},{11466,3295},{11460,1868},{11458,1385},{11465,0},{11475,3511},{11454,1259},{11471,0},{11498,0},{4539,3813},{3778,3818},{11487,3297},{11495,0},{11529,2949},{11481,3840},{11528,0},{11534,0},{11512,3821},{11525,0},{11545,1391},{11556,3706},{11482,3754},{11550,3303},{11562,3153},{11541,3846},{4581,3813},{11575,1374},{11573,0},{11586,3863},{11544,1294},{11585,0},{3825,3827},{4335,3827},{4341,3827},{4341,3840},{11606,0},{4548,3840},{11574,1279},{4830,3827},{11602,3868},{11609,0},{11610,3309},{3825,3840},{3642,3827},{4380,3827},{4794,3827},{4335,3840},{4794,3840},{11615,0},{3909,3840},{4830,3840},{3909,3827},{3642,3840},{4380,3840},{4548,3827},{5379,3840},{5262,3827},{5382,3840},{11618,0},{11208,3873},{11623,1231},{3882,3827},{11625,3171},{11726,0},{5382,3827},{5262,3840},{3882,3840},{3636,3874},{11339,0},{11338,3908},{11628,3616},{11631,2983},{11634,3879},{11640,3174},{11645,0},{11643,1281},{11649,2994},
{11648,0},{11655,3325},{11658,3327},{11661,3187},{11664,3189},{11259,3889},{11481,1603},{11718,3344},{11675,0},{11333,0},{11670,3583},{11654,0},{10629,3892},{11681,0},{11684,0},{11694,3017},{4809,3840},{4815,3827},{5934,3813},{11702,0},{11706,2121},{11481,1793},{10911,3904},{11715,3450},{4815,3840},{11520,1533},{12134,0},{11733,3583},{11745,1794},{10128,3918},{10710,3916},{10956,3919},{10707,3917},{11760,3657},{11765,0},{11768,0},{11364,3923},{11764,3664},{11777,0},{10143,3924},{11778,3668},{11326,4032},{4341,3915},{11391,3929},{3825,3915},{11799,3808},{11436,3935},{11746,3910},{11802,3807},{11791,3756},{3642,3915},{3825,3930},{9870,3937},{11472,3939},{11790,3827},{11745,3930},{3636,3938},{11857,3941},{11821,3823},{11831,0},{11903,0},{11490,3945},{4380,3930},{4599,3915},{4548,3915},{4335,3915},{11505,3944},{11840,0},{11841,2672},{4341,3930},{11464,3950},{11119,3950},{11859,3839},{11846,0},{11868,2677},{11110,3941},{11864,0},{11825,0},{11889,3855},{4380,3915},{11879,0},{11884,3958},{11876,0},{11888,0},{11907,3859},{11897,0},{11521,3967},{11894,0},{11900,0},{11906,0},{4794,3915},{11912,0},{3909,3915},{3642,3930},{4335,3930},{4794,3930},{11939,0},{11933,0},{11915,0},{11930,0},{11936,0},{11925,3865},{11919,3864},{11822,0},{11187,3980},{11951,0},{11945,0},{3909,3930},{4548,3930},{3882,3915},{11960,0},{11966,0},{11963,0},{4830,3915},{11969,0},{11975,0},{11972,0},{11978,0},{11984,0},{4830,3930},{11996,0},{11999,0},{11987,0},{11990,0},{4341,3985},{3882,3930},{11993,0},{5382,3930},{12008,0},{12002,0},{12005,0},{3825,3985},{12017,0},{12012,2978},{12016,4006},{12023,0},{4794,3985},{12029,0},{12032,0},{12038,0},{3642,3985},{4341,4008},{4335,3985},{12024,4013},{12047,0},{12050,0},{4815,3985},{3909,3985},{4341,4013},{4335,4008},{5379,3985},{12089,0},{5262,3985},{3825,4008},{4380,4008},{3825,4013},{3642,4008},{12051,2986},{4794,4013},{4794,4008},{4335,4013},{4380,4013},{4548,4008},{5382,3985},{4809,4008},{4599,4013},{3642,4013},{3909,4013},{3909,4008},{12056,0},{5379,4008},{12057,1385},{12062,0},{3882,3985},{4815,4008},{4809,4013},{5379,4013},{5262,4008},{4815,4013},{5382,4008},{5262,4013},{12065,0},{5382,4013},{3882,4008},{12069,3326},{12074,0},{12075,3002},{12078,3004},{12081,3005},{11958,3968},{4548,4013},{11955,1610},{12135,3033},{12091,4024},{12072,4030},{4830,4008},{12140,0},{11790,1605},{4809,3930},{12143,0},{12086,0},{3882,4013},{5379,3915},{11688,4035},{12102,3016},{4830,4013},{4599,3985},{12116,0},{12119,0},{12122,0},{4380,3985},{12123,3903},{11818,3824},{11790,1754},{10914,4042},{4599,4008},{4815,3915},{11744,0},{5379,3930},{5262,3915},{4599,3930},{4809,3915},{10662,3915},{12131,0},{4548,3985},{4809,3985},{12743,0},{4815,4048},{12147,3890},{12734,0},{12644,0},{12629,0},{12152,0},{12164,0},{10968,4053},{12161,0},{12158,0},{10450,4051},{12155,0},{12168,3664},{11361,4057},{11370,4057},{12176,0},{11379,4060},{12185,0},{12179,0},{12188,0},{12191,0},{12194,0},{10969,4053},{12200,0},{12218,0},{3778,4067},{12212,0},{12221,0},{12215,0},{12209,0},{12222,1888},{12227,0},{10800,4078},{12230,0},{12233,0},{12243,3838},{12268,3940},{12257,0},{11520,4082},{12260,0},{12254,0},{12279,4092},{12281,0},{12263,0},{12275,0},{12240,4079},{12239,0},{12290,0},{12294,3851},{12291,3962},{12247,3968},{12305,0},{11532,4104},{12326,0},{12315,4099},{12271,3946},{11826,4070},{12272,0},{3883,4106},{12344,0},{12347,0},{12350,0},{12353,0},{12338,0},{12339,3866},{12246,4111},{4791,4108},{12354,4119},{4380,4082},{12145,3869},{3838,4124},{12467,0},{12144,3985},{12380,0},{12334,3986},{12395,0},{4341,4082},{12389,0},{12392,0},{4341,4111},{4335,4082},{4830,4082},{4380,4132},{4548,4111},{12407,0},{3825,4111},{3642,4082},{12402,4133},{3825,4082},{4380,4111},{4548,4082},{12393,3993},{12425,0},{4335,4048},{4794,4132},{12440,0},{5262,4082},{5379,4111},{12443,0},{4794,4082},{12449,0},{4335,4111},{4341,4132},{3909,4111},{12453,4152},{3642,4132},{3825,4048},{12441,4003},{3642,4048},{3909,4132},{3825,4132},{3642,4111},{3909,4082},{4341,4048},{4335,4132},{12461,0},{5379,4082},
{4794,4111},{12462,3827},{11956,4155},{5379,4048},{5262,4132},{12476,0},{5382,4111},{12472,1231},{12470,0},{12291,4099},{3909,4048},{3882,4082},{12471,1231},{4794,4048},{12488,0},{12491,0},{5382,4082},{5379,4132},{5262,4111},{12494,0},{12497,0},{12502,1299},{3882,4111},{11338,4214},{12506,0},{12509,0},{5262,4048},{5382,4132},{12518,0},{12512,0},{12515,0},{5382,4048},{12501,1299},{12643,4029},{3882,4132},{4341,4173},{12524,0},{12527,0},{12530,0},{12536,0},{12533,0},{12542,0},{12539,0},{12554,0},{12551,0},{4335,4173},{12545,0},{12548,0},{3882,4048},{12557,0},{12563,0},{12560,0},{3825,4173},{12569,0},{12566,0},{12572,0},{3906,4173},{12578,0},{12581,0},{3642,4173},{3909,4173},{12587,0},{12590,0},{12593,0},{4599,4173},{4809,4173},{12602,0},{12596,0},{12599,0},{4815,4173},{12605,0},{12608,0},{12610,1374},{5379,4173},{12614,0},{12620,0},{12397,4044},{12635,0},{12333,4132},{12288,3937},{12740,0},{12713,0},{4809,4082},{12641,0},{12731,0},{12728,0},{4830,4048},{3882,4173},{12650,0},{12094,4209},{12627,4031},{12725,0},{12722,0},{12716,0},{4830,4111},{12708,3031},{9870,4096},{4548,4173},{12632,0},{4830,4173},{12609,1374},{4815,4082},{12671,0},{4809,4111},{4599,4132},{5262,4173},{11673,4223},{4815,4111},{4599,4048},{4809,4132},{5382,4173},{12674,0},{4380,4173},{11692,4226},{4599,4082},{4809,4048},{4815,4132},{12683,0},{12686,0},{4548,4132},{4380,4048},{4548,4048},{12693,3901},{12698,0},{12704,0},{4830,4132},{4599,4111},{12666,4221},{12659,0},{12662,0},{12707,0},{12396,4048},{12653,0},{12638,0},{4794,4173},{12752,0},{13488,4245},{12770,0},{12775,3663},{12165,4255},{12779,0},{11367,4257},{10989,4258},{12786,3667},{12791,0},{10449,4260},{12798,3927},{12797,0},{9750,4268},{4539,4269},{3906,4269},{12810,3806},{4581,4269},{4791,4269},{12816,3814},{12785,0},{12834,4277},{12826,1385},{12824,0},{12828,4273},{12839,0},{12823,3951},{12849,4282},{11871,4280},{12863,0},{12867,4288},{12879,4292},{12282,4284},{12857,0},{12858,3849},{12300,4297},{13493,0},{12905,0},{12900,3860},{13334,0},{12873,3949},{11556,4291},{12899,0},{12837,4096},{12330,4302},{12894,4099},{12870,3949},{12912,4285},{12922,3974},{12366,4310},{12306,4302},{12369,4313},{11877,4315},{12944,0},{12363,4309},{12958,3982},{12953,0},{12885,4125},{12956,0},{11955,4320},{12959,0},{12882,4125},{12965,0},{12973,3871},{12408,4327},{12977,0},{12992,0},{12998,0},{12995,0},{12989,0},{12986,0},{13007,0},{13004,0},{13022,0},{13384,4155},{13019,0},{13016,0},{13385,0},{13013,0},{13023,4142},{13028,0},{12911,0},{13042,3872},{13040,0},{13037,0},{13031,0},{13055,0},{13052,0},{13046,0},{13070,0},{11725,4461},{13064,0},{13073,0},{13067,0},{13076,0},{13058,0},{13091,0},{13088,0},{4335,4320},{13085,0},{13082,0},{13079,0},{13100,0},{13101,1294},{13097,0},{13109,0},{3825,4320},{13112,0},{12033,4373},{4794,4320},{13127,0},{13118,0},{4341,4320},{13136,0},{13130,0},{12034,4373},{13133,0},{13139,0},{13148,0},{13154,0},{13151,0},{13131,4166},{4809,4320},{3642,4320},{12039,4252},{13162,4388},{13181,0},{13178,0},{5379,4320},{3909,4320},{13164,4387},{4830,4320},{13193,0},{4335,4252},{13202,0},{13196,0},{13205,0},{4341,4252},{5262,4320},{12756,4173},{13235,0},{13230,4409},{4794,4252},{13200,4408},{13244,0},{3825,4252},{3642,4252},{13256,0},{5382,4320},{13248,4417},{13242,4191},{13280,0},{13277,0},{12582,4424},{3909,4252},{4599,4252},{3882,4320},{4809,4252},{13292,0},{13295,0},{4815,4252},{13299,4434},{5379,4252},{13307,0},{5262,4252},{13319,0},{13315,3884},{13324,1391},{13323,1391},{12760,4210},{13374,4457},{4815,4320},{4380,4320},{3882,4252},{13370,0},{13479,4494},{12717,4495},{13475,0},{12759,3777},{12630,4253},{13386,3685},{4830,4252},{13391,0},{13314,4033},{13400,0},{13397,0},{5382,4252},{13412,0},{13415,0},{13403,0},{13405,3891},{13409,0},{5934,4269},{12923,0},{13418,0},{13421,0},{13427,0},{13424,0},{13430,0},{4548,4252},{13431,3899},{13337,0},{13439,0},{13436,0},{13442,0},{13448,0},{13445,0},{12960,1516},{13463,0},{12699,4488},{13457,0},{13460,0},{13478,0},{13346,0},{13353,4450},{4599,4320},{12749,0},{13358,0},
{13106,0},{13328,0},{13382,0},{4380,4252},{13502,0},{14150,0},{11739,4501},{13512,4503},{12783,4506},{13523,0},{13517,0},{13526,0},{13535,0},{13530,4264},{12801,4506},{13539,3927},{13544,0},{13547,0},{13550,0},{13559,0},{13556,0},{13572,1259},{13575,3836},{13570,3942},{13579,4090},{13583,0},{13589,0},{13593,3856},{12306,4530},{3844,4533},{13571,0},{3778,4536},{13602,4306},{13634,0},{13662,4540},{13644,4306},{13643,0},{13640,0},{3838,4552},{13661,0},{13653,1597},{13625,0},{13649,0},{13671,4128},{13688,0},{13683,1279},{13670,0},{13682,0},{13698,4137},{13695,4333},{13719,4572},{13707,4568},{13713,4570},{13737,4148},{13731,4576},{12960,4578},{13032,4581},{13752,4585},{13761,4588},{13782,4592},{13734,4008},{13092,4593},{4341,4578},{13794,4597},{13799,0},{13806,4601},{13814,0},{4335,4578},{13815,4160},{13676,0},{13823,0},{13818,4608},{13829,0},{13832,0},{13833,4582},{13841,0},{13852,4015},{13863,4620},{4599,4578},{3825,4578},{13868,0},{13871,0},{13874,0},{4794,4578},{13877,0},{3642,4578},{13182,4628},{4548,4578},{13889,0},{3909,4578},{13895,0},{13898,0},{13904,0},{13892,0},{13906,4179},{4830,4578},{13916,0},{5379,4578},{13919,0},{13922,0},{4815,4578},{13931,0},{13934,0},{13936,4018},{13943,0},{5262,4578},{13940,0},{13949,0},{13955,0},{13967,0},{13282,4654},{13964,0},{13970,0},{5382,4578},{13973,0},{13976,0},{13985,0},{3882,4578},{13991,0},{13971,4022},{13997,0},{14002,4205},{14004,4207},{14009,0},{14021,0},{3883,4710},{14043,3013},{14022,4215},{14005,4024},{14136,4711},{12310,4529},{13329,4720},{14039,0},{14042,0},{14048,0},{14054,0},{14003,0},{14064,4692},{14063,0},{14075,0},{14082,1294},{14081,0},{14094,4697},{12646,4674},{14102,0},{14115,4229},{13452,4707},{13734,1460},{13635,4543},{14139,4714},{14031,4459},{14145,3909},{13506,4254},{14126,0},{13467,4709},{14018,0},{4809,4578},{14168,0},{14177,0},{14184,4730},{14183,0},{13527,4729},{14180,0},{12795,4733},{14204,0},{10467,4735},{14196,4728},{14208,3801},{14211,3810},{14217,3834},{14214,3833},{14220,3818},{14228,0},{14231,0},{12309,4745},{14246,0},{14243,0},{14247,1281},{14252,0},{14229,4752},{14264,0},{12381,4758},{14273,0},{14292,3858},{13689,4766},{14324,0},{14325,4586},{14280,4755},{14339,0},{14345,0},{14346,4603},{14360,0},{12483,4785},{14376,4381},{14367,4380},{13842,4791},{13854,4794},{14393,0},{14396,0},{14408,0},{14421,4402},{14414,0},{14420,0},{13908,4809},{14426,0},{13911,4811},{14444,0},{13236,4815},{14450,0},{14459,0},{14474,0},{13944,4823},{14475,4420},{14289,4788},{14493,4429},{12585,4830},{14498,0},{14500,3882},{13977,4834},{14510,0},{12063,4836},{14511,4437},{13998,4839},{14525,0},{14627,0},{14549,0},{14628,4499},{14552,0},{14540,0},{14542,4453},{14543,0},{14529,4446},{14534,0},{14172,4248},{14255,0},{14010,4851},{13393,4845},{14535,4464},{14522,0},{12615,4855},{14055,4854},{14537,0},{14577,3848},{14580,3895},{14112,4863},{14600,0},{14631,3912},{14642,0},{14637,4731},{14634,4732},{14643,4730},{14654,0},{14632,3912},{12195,4886},{12204,4887},{12249,4888},{12264,4889},{14681,0},{12915,4894},{14685,4543},{14688,3819},{14700,4762},{13113,4908},{13849,4911},{14744,0},{14735,0},{14386,4914},{14748,4800},{14751,4801},{14754,4395},{13212,4921},{13209,4920},{14768,0},{14440,4922},{14772,4407},{14769,4406},{14781,4817},{13269,4929},{14804,0},{14809,4020},{14808,4194},{14815,4021},{14819,0},{14526,4942},{14881,4445},{14616,4964},{14884,4037},{13362,4947},{14846,0},{13359,4949},{13341,4943},{14697,4953},{14870,0},{14876,0},{14879,0},{14074,4959},{13335,4960},{12675,4962},{14885,0},{14838,4537},{14897,0},{14853,5005},{14909,0},{14904,4966},{14901,4512},{7626,4970},{14655,4966},{14898,4730},{14196,4966},{4539,4971},{3906,4971},{14903,0},{3778,4972},{3637,4973},{4581,4971},{3838,4974},{3844,4975},{4791,4971},{14938,4748},{13614,4976},{14936,0},{14937,4894},{15056,0},{14948,0},{14957,0},{14385,4983},{13848,4984},{14439,4991},{14978,0},{14996,0},{15002,0},{14999,0},{15001,4838},{15006,4208},{12625,5002},{15017,0},{15020,0},{15026,0},{12111,5017},{14574,5013},{5934,4971},{15047,0},
{3883,5016},{15012,4449},{12753,5019},{15062,0},{14646,5021},{15068,0},{15071,0},{15074,0},{15078,4885},{15077,0},{15086,0},{15063,4267},{15083,0},{15089,0},{11793,5030},{15095,0},{15082,4271},{15098,0},{15101,0},{15104,0},{15107,0},{15110,0},{15117,4537},{15116,0},{15113,0},{13662,5039},{15123,4719},{15134,0},{15137,0},{15140,0},{14514,5049},{15155,0},{15158,0},{14533,5054},{15021,5055},{15161,0},{15184,4703},{15176,0},{15179,0},{15185,0},{15173,0},{14259,5039},{11953,5038},{15166,5007},{12208,5063},{14649,5067},{15195,5066},{15204,2906},{14178,5070},{15209,0},{15216,4506},{15213,3932},{12813,5073},{15227,0},{15222,3936},{15191,0},{11845,5076},{12843,5078},{15234,3955},{15232,3940},{15233,0},{15232,3821},{15237,3960},{12285,5076},{15232,3941},{12327,5080},{15246,3972},{11914,5081},{12909,5077},{13623,5077},{15232,4090},{12360,5081},{14253,5077},{15249,4753},{15232,4096},{11952,5084},{13674,5077},{11893,5080},{14397,5088},{14463,5090},{15275,0},{15280,3777},{15258,4540},{15287,0},{11331,5093},{15311,0},{12628,5093},{15441,3777},{12628,5148},{14085,5098},{15297,4036},{15291,5101},{15300,4479},{15292,5057},{4581,5105},{15320,0},{15323,0},{11793,5110},{15216,5110},{15329,0},{13551,5112},{15341,0},{15333,5110},{15342,4266},{13560,5115},{3906,5105},{12834,5116},{4539,5105},{13566,5116},{15353,0},{4791,5105},{12882,5120},{15356,0},{15359,0},{15363,4296},{12870,5122},{15363,4093},{15363,4534},{15363,4892},{13605,5123},{15363,4295},{15386,0},{15363,4105},{12894,5125},{13617,5127},{15380,0},{13644,5131},{15392,0},{15389,0},{14694,5135},{15398,0},{15401,0},{15404,0},{15385,5040},{15410,0},{15413,0},{13879,5139},{15419,0},{14467,5140},{15422,0},{15003,5141},{14862,5142},{5934,5105},{15168,5144},{15435,4455},{14862,5149},{14587,5150},{14103,5151},{15452,0},{15437,0},{15458,0},{15461,0},{15374,0},{15464,0},{15416,0},{15467,0},{15471,5156},{15474,5111},{15479,0},{15480,4730},{15491,0},{3778,5161},{15486,4728},{15500,0},{3637,5165},{15503,0},{15506,0},{15509,0},{14670,5170},{15518,0},{15519,5174},{15515,0},{3838,5180},{15536,0},{15527,0},{15530,0},{15539,0},{15533,0},{14706,5215},{15551,0},{14931,5182},{3844,5185},{15545,0},{15554,0},{15564,4755},{14268,5189},{15563,0},{15572,0},{13677,5193},{15576,4899},{12966,5195},{15584,0},{15588,4763},{15593,0},{13878,5198},{15599,0},{14466,5200},{14521,5201},{15160,5204},{15614,0},{15617,0},{15620,0},{15605,0},{15623,0},{3883,5208},{14586,5209},{15611,0},{15606,4955},{15636,5211},{14610,5216},{15653,0},{10741,5217},{15657,4521},{12178,5220},{15656,0},{13513,5223},{15668,0},{14901,5221},{14223,5224},{15677,0},{15678,4283},{15681,3845},{13584,5228},{14238,5232},{13581,5225},{15701,0},{15719,0},{15725,0},{15728,0},{15740,0},{15752,0},{15737,0},{15261,5249},{15755,0},{15761,0},{15747,5041},{13693,5251},{15767,0},{15773,0},{15776,0},{15426,5259},{15801,3907},{15796,4490},{15809,0},{15288,5260},{15783,4675},{15786,4852},{14871,5263},{15797,0},{15800,0},{3838,5270},{12778,5273},{11784,5271},{11007,5271},{9750,5271},{11385,5271},{15818,0},{15823,3940},{15492,5275},{14227,5277},{11794,5278},{15823,3941},{15823,3821},{15829,3940},{15829,3821},{10666,5274},{3637,5279},{15840,4744},{15817,3941},{13596,5282},{15817,3940},{12214,5281},{14673,5277},{11899,5283},{15829,3941},{15851,0},{11895,5276},{15823,4090},{15857,0},{15714,5276},{3844,5284},{15823,4096},{15829,4090},{13648,5286},{15829,4096},{15861,5186},{13669,5289},{15573,5288},{15817,4090},{14283,5286},{15881,0},{14295,5289},{13692,5294},{15817,4096},{15830,0},{15822,4296},{15890,0},{15893,0},{15816,4296},{14481,5299},{15917,0},{15923,0},{15926,0},{15910,5269},{15927,4234},{14013,5302},{15909,5304},{15935,0},{4581,5334},{15941,0},{15944,0},{15945,3795},{15950,0},{11848,5317},{11380,5319},{15937,3941},{15937,3821},{15956,0},{15971,0},{15965,0},{10666,5312},{12882,5324},{15964,3941},{15962,0},{11119,5317},{15968,0},{15972,4295},{15975,4291},{15989,0},{15980,0},{15983,0},{15937,3940},{15964,3821},{15986,0},{15995,0},{12870,5325},{4539,5332},{3778,5330},
{15937,4090},{16001,0},{15982,4890},{3906,5332},{15964,3940},{4539,5334},{16012,4542},{16215,5121},{16012,5406},{16005,4105},{16016,0},{15964,4090},{12330,5336},{16029,4534},{15937,4096},{16028,0},{16020,3853},{13644,5343},{13635,5336},{15558,5341},{14694,5345},{16035,4892},{12894,5335},{16034,0},{3906,5334},{14707,5341},{16040,0},{16042,5348},{16049,0},{16052,0},{16025,0},{16043,0},{16046,0},{4791,5332},{15964,4096},{14709,5351},{4791,5334},{16061,0},{16058,0},{5934,5334},{16064,0},{16065,4296},{15936,4296},{16071,4563},{14488,5360},{16082,0},{16103,0},{16097,0},{14601,5336},{4581,5332},{3883,5366},{14865,5362},{15036,5363},{16094,0},{5934,5332},{15282,5368},{15324,5370},{16118,0},{16113,3805},{12186,5373},{16124,0},{16134,4295},{16126,3821},{16130,0},{16127,0},{16133,0},{16157,0},{12894,5386},{16145,0},{16148,0},{15687,5384},{16163,0},{16149,4105},{16126,3941},{15372,5384},{11119,5380},{12870,5379},{16166,0},{16179,4291},{11559,5390},{16137,4291},{12894,5383},{16178,0},{16167,4105},{16126,3940},{12894,5389},{15693,5394},{16205,0},{16214,0},{16190,0},{16208,0},{16196,0},{16193,0},{12882,5403},{16199,0},{12882,5378},{16209,4295},{12870,5393},{16185,4295},{16227,4534},{16235,0},{16170,5407},{16230,4534},{16226,0},{13644,5409},{16126,4090},{16238,0},{14670,5391},{16253,0},{16343,0},{16242,4892},{16250,0},{16158,4105},{16247,0},{16241,0},{13644,5410},{16256,0},{16262,0},{16259,0},{16265,0},{14250,5401},{14694,5414},{16271,0},{16233,4315},{16273,4901},{16274,0},{12882,5395},{16126,4096},{14706,5429},{16290,5431},{16298,0},{13644,5427},{15283,5368},{16281,4534},{16307,0},{16304,0},{16299,4892},{14694,5433},{13722,5436},{15717,5429},{16317,4892},{16316,0},{14694,5439},{16140,4296},{13105,5442},{14487,5444},{16331,0},{14548,5449},{16109,0},{16352,0},{15043,5451},{16355,0},{16349,0},{16346,0},{16338,5445},{16361,0},{16364,0},{16367,0},{10462,5457},{14652,5456},{9751,5458},{12870,5459},{16377,4291},{16386,4105},{16382,0},{12870,5461},{12894,5462},{11119,5463},{16392,4291},{11559,5474},{12870,5464},{16400,0},{16401,3852},{16395,3852},{16415,0},{16427,0},{16410,5230},{11559,5467},{16422,3852},{16416,4105},{12894,5472},{16407,5391},{16421,0},{16457,0},{16433,0},{16436,0},{16428,5236},{16439,0},{16448,0},{16383,4291},{16454,0},{16449,4295},{16442,0},{16443,4295},{12882,5481},{12882,5483},{11559,5465},{16487,0},{15112,5490},{16461,4311},{16484,0},{16473,4312},{16493,0},{16467,4308},{16458,4897},{16490,0},{13644,5493},{16479,4534},{16478,0},{16505,0},{16496,0},{16511,0},{16497,4102},{16506,5244},{16502,0},{16512,4534},{16266,5515},{16529,0},{14241,5507},{16535,0},{15352,5506},{14277,5499},{16515,5247},{16539,4892},{16544,0},{15258,5508},{15255,5490},{16559,0},{16562,0},{16548,5248},{16568,0},{16571,0},{16563,4326},{16572,4901},{13644,5504},{14304,5529},{15415,5527},{16586,0},{16592,0},{14694,5513},{16577,0},{16598,0},{16578,4892},{16610,0},{16602,4575},{16599,4143},{16607,0},{16616,0},{14694,5526},{16613,0},{16619,0},{16620,4349},{16603,4575},{16625,0},{3906,5543},{16389,4296},{4539,5543},{13750,5537},{5934,5543},{16634,0},{15429,5508},{4581,5543},{16661,0},{16365,1604},{4791,5543},{16644,5011},{16649,0},{15042,5550},{16518,5170},{16524,4537},{16662,4871},{14832,5551},{14607,5552},{16641,4676},{15192,5555},{3838,5672},{16669,1449},{7627,5558},{16673,0},{16679,0},{10666,5662},{16672,3941},{16682,0},{16685,0},{16703,0},{16689,5468},{16697,0},{16688,0},{16698,3852},{11559,5566},{16694,0},{16718,0},{16727,0},{16742,0},{16200,5581},{16733,0},{16730,0},{16715,0},{16709,0},{16706,0},{16736,0},{16739,0},{16757,0},{16781,0},{16787,0},{11464,5662},{16758,5488},{16778,0},{16784,0},{16772,0},{16746,5339},{16766,0},{16817,0},{13650,5600},{16811,0},{16678,3940},{16820,0},{16793,0},{13665,5602},{12948,5598},{16838,0},{16844,0},{16839,5512},{16827,5510},{12325,5611},{16672,3940},{11824,5662},{16859,0},{16672,4090},{16868,0},{16865,0},{16848,5517},{16854,5518},{16877,0},{16845,5425},{16862,0},{12970,5624},{12898,5617},{16886,0},{13008,5631},{16290,5630},
{16056,5630},{16898,0},{16901,0},{16678,4090},{11821,5662},{16916,0},{16908,5437},{16925,0},{16907,0},{3844,5634},{16932,4580},{16931,0},{16672,4096},{16943,0},{13749,5648},{16938,5186},{13059,5650},{4539,5651},{16678,4096},{16961,0},{16967,0},{16970,0},{4581,5651},{3906,5651},{16973,0},{5934,5651},{16671,4296},{14991,5658},{16984,5546},{16987,4090},{16987,4096},{16988,0},{17000,0},{4791,5651},{3883,5669},{15306,5668},{17003,0},{16983,5546},{3838,5671},{16991,0},{16982,0},{17012,0},{16979,0},{17021,0},{17027,0},{17030,0},{11119,5677},{11848,5677},{11119,5678},{11848,5678},{11559,5679},{17042,0},{17037,3852},{12298,5678},{17066,0},{17058,5570},{17049,5574},{17063,0},{17054,0},{16719,5685},{17046,5689},{17088,5584},{16761,5700},{17082,5695},{17097,5591},{16749,5697},{17079,5692},{12870,5704},{17129,0},{17118,5599},{16788,5702},{17124,5607},{16803,5707},{17029,3940},{17117,0},{17130,5604},{17145,5610},{16824,5711},{3778,5712},{3778,5718},{12882,5714},{3637,5717},{17026,3940},{17174,0},{17168,0},{17165,0},{4539,5723},{17160,5623},{4539,5736},{17195,0},{17142,4295},{17183,0},{17112,4291},{17201,0},{4791,5735},{14940,5734},{17184,5627},{3906,5736},{17175,4105},{3906,5723},{4791,5736},{17222,0},{17217,5431},{12894,5725},{3637,5738},{15463,5673},{5934,5736},{16920,5742},{17229,4534},{17336,0},{4539,5735},{16935,5745},{17232,4295},{16570,5746},{17248,5748},{17241,5642},{17029,4090},{3844,5750},{17249,0},{17026,4090},{14712,5751},{16033,5755},{17264,0},{17192,0},{3906,5735},{17258,0},{13644,5743},{16947,5753},{5934,5723},{3883,5756},{12882,5744},{17273,0},{17274,4892},{5934,5735},{17277,4615},{13155,5760},{17288,0},{17291,0},{17292,4633},{17297,0},{17029,4096},{14694,5758},{14995,5767},{17303,0},{17346,4443},{17323,5103},{17337,4718},{17324,0},{17340,4717},{17026,4096},{17307,4534},{13644,5769},{17034,4296},{17310,4892},{4581,5735},{17025,4296},{14694,5770},{14694,5771},{4581,5723},{4581,5736},{17333,0},{17024,0},{17328,5213},{17321,0},{17327,0},{15642,5783},{11119,5784},{11848,5784},{17363,0},{11119,5785},{17360,0},{11848,5785},{17364,3852},{12870,5789},{17372,0},{17367,4291},{11559,5788},{12894,5791},{17378,0},{17373,4105},{17379,4105},{17074,5795},{17390,0},{17395,5799},{17391,5698},{17070,5794},{12298,5784},{17420,0},{17402,0},{17399,0},{17387,0},{17104,5801},{17411,0},{15721,5803},{17417,0},{17435,0},{17423,0},{12298,5785},{17424,5713},{17414,0},{17439,4295},{17429,0},{17447,0},{17465,0},{17456,0},{17405,0},{17432,0},{17459,0},{17462,0},{17408,0},{12894,5793},{12882,5823},{17468,0},{17483,0},{17480,0},{17455,5194},{17450,0},{17504,0},{17469,4295},{17513,0},{12882,5813},{17486,0},{17498,0},{17516,0},{17493,4534},{17566,5836},{16284,5833},{17505,5629},{17492,0},{17522,0},{17463,5619},{17519,0},{17534,0},{17528,0},{17438,0},{17531,0},{17223,5841},{15961,5902},{13644,5831},{17546,0},{17540,0},{17536,5849},{17510,0},{17558,0},{17567,0},{17564,0},{15438,5887},{17552,0},{17543,0},{17574,5748},{17579,0},{17453,0},{17419,5597},{17582,0},{17573,0},{17568,4534},{17600,0},{13770,5862},{17595,4892},{13644,5856},{17594,0},{17606,0},{17555,0},{15892,5869},{17609,0},{17612,0},{14349,5871},{14694,5865},{17618,0},{17603,0},{14739,5874},{17621,0},{17625,4915},{17628,4390},{17631,4391},{14757,5878},{17637,4415},{17640,4892},{17645,0},{15144,5883},{13327,5884},{17535,5849},{17699,0},{17669,0},{17672,0},{14694,5880},{17675,0},{17681,0},{17355,4296},{17684,0},{17687,0},{17690,0},{17693,0},{17696,0},{17709,5062},{17712,5041},{17343,5900},{14856,5888},{14850,5886},{3844,6034},{17717,0},{16279,5947},{17720,0},{17724,4291},{17723,0},{11559,5910},{17733,4291},{11559,5909},{17741,0},{12870,5911},{17738,0},{12870,5908},{17727,3852},{17742,4107},{17750,0},{17747,0},{17759,0},{17730,3852},{17753,0},{17762,0},{15730,5925},{17767,5924},{17765,0},{17771,0},{17777,0},{17780,0},{17394,5929},{17148,5927},{15735,5931},{17073,5930},{15549,5932},{17799,5814},{17808,4760},{17816,0},{12894,5937},{17800,5705},{17795,0},{17822,0},{17811,4105},{17852,0},{17178,5943},{17774,0},
{17832,5252},{17103,5945},{17856,4295},{17862,4138},{17860,5836},{16278,5947},{17855,0},{16594,5966},{3844,5967},{17877,4140},{17871,4567},{17894,0},{17882,0},{17876,0},{17883,4139},{17907,4144},{17900,0},{17913,4145},{17912,0},{17508,5953},{17931,5972},{18062,0},{17925,4582},{17936,0},{12882,5952},{17928,5973},{18110,0},{17945,0},{17940,4150},{17933,0},{17961,4589},{17960,0},{17952,5982},{17978,0},{17987,0},{17584,5994},{17970,4534},{17969,0},{17979,4591},{17999,0},{17996,0},{12469,5997},{18000,4600},{17993,0},{17980,4591},{17583,5994},{16074,6004},{18003,4159},{18018,4981},{18023,0},{18015,4788},{3637,6010},{18033,4619},{3778,6012},{14958,6013},{14961,6014},{3883,6015},{14985,6016},{18053,0},{18059,0},{12955,6035},{3838,6037},{13644,5990},{18069,4892},{18077,0},{18078,4953},{14694,6023},{18087,4690},{18091,5896},{17685,6031},{18099,4230},{12888,6032},{18066,4218},{18065,0},{3844,6038},{18120,6155},{18126,3852},{18140,0},{18137,0},{18132,4291},{11559,6042},{18143,0},{18131,0},{18158,0},{18155,0},{18149,0},{15706,6053},{18177,6058},{18168,5589},{18173,0},{18185,0},{18184,5612},{18180,5934},{15543,6064},{18209,0},{18195,4105},{18206,0},{18203,0},{18181,5805},{18200,0},{18212,0},{18215,0},{18236,0},{18224,0},{12870,6044},{18218,0},{18227,0},{18228,5292},{12894,6065},{18231,5948},{18219,5626},{18242,0},{18246,6041},{17766,6081},{18251,0},{17865,6041},{14301,6085},{18263,0},{18254,0},{17904,6088},{14310,6092},{18269,0},{18272,0},{18161,0},{18279,5637},{14307,6091},{18428,0},{18285,5639},{14313,6096},{14316,6099},{16593,6098},{14319,6097},{17563,6107},{18320,0},{3906,6103},{18305,0},{18324,5885},{17937,6105},{18308,0},{18323,0},{14328,6110},{17532,6111},{18344,0},{14331,6112},{18348,5996},{18356,0},{5934,6103},{18362,0},{17967,6117},{4539,6103},{13122,6125},{4539,6126},{18383,0},{14352,6124},{18366,5652},{18314,0},{14361,6129},{18386,0},{18024,6131},{3778,6130},{18401,0},{14388,6134},{18371,0},{18407,0},{3838,6136},{3906,6126},{4791,6126},{3637,6137},{18416,0},{3883,6139},{5934,6126},{18420,6018},{15150,6141},{4581,6126},{4791,6103},{18434,0},{18437,0},{18398,0},{18446,0},{17656,6108},{18443,0},{14568,6149},{4581,6103},{18455,0},{18431,0},{18470,0},{14592,6152},{18094,6153},{18248,0},{14604,6154},{18119,0},{16093,6157},{18476,0},{18492,5681},{18150,6160},{18485,0},{18477,6048},{18488,0},{18165,6166},{18495,6054},{18513,5703},{18512,0},{18527,0},{18524,0},{18516,5719},{18519,5290},{18534,5825},{18533,0},{18542,0},{17196,6179},{18541,5731},{18520,5246},{18549,6182},{18575,0},{18560,0},{18564,5945},{18552,6079},{18578,0},{18572,0},{18569,0},{18562,5836},{18225,6196},{18584,0},{18509,0},{3778,6198},{18600,6094},{3637,6207},{3778,6210},{18612,6203},{18629,0},{3844,6202},{15525,6205},{4539,6208},{18620,0},{18605,0},{3637,6211},{18638,0},{17508,6187},{3844,6213},{3906,6208},{17949,6215},{18650,0},{18656,0},{17955,6221},{3883,6222},{18671,0},{18709,6104},{18659,0},{3778,6225},{18695,0},{18686,0},{18681,6121},{14721,6229},{18692,0},{3637,6235},{18701,0},{18698,0},{18710,0},{18271,6203},{3883,6238},{18725,0},{18680,0},{3883,6243},{5934,6208},{18740,0},{18746,0},{18743,0},{18749,0},{18758,0},{18755,0},{18761,0},{18722,0},{15154,6254},{18764,0},{4791,6208},{3838,6268},{18072,6257},{18774,6146},{18081,6260},{18794,0},{3838,6263},{4581,6208},{18473,0},{3838,6271},{18770,0},{18767,0},{17703,6273},{18822,6163},{18836,0},{17754,6279},{18827,0},{15703,6276},{18831,6167},{18842,0},{18830,0},{17446,6282},{18845,0},{18848,0},{18863,0},{18860,0},{18852,6285},{18866,0},{18585,6292},{18870,5829},{18881,0},{18884,0},{18867,6185},{18875,0},{18877,6195},{17889,6300},{18891,5701},{17886,6296},{18259,6298},{18886,5965},{18897,6193},{18911,0},{18597,6304},{18896,0},{18882,6293},{18920,0},{18923,0},{17023,6273},{18932,0},{18941,0},{18926,0},{18944,0},{18938,0},{18929,0},{18959,0},{18965,0},{18953,0},{18885,5965},{18961,6109},{18968,0},{18969,4596},{18977,0},{18962,0},{18339,6324},{18980,0},{18975,6117},{18992,0},{19004,0},{18996,4612},{18702,6335},{19001,0},
{14727,6331},{14730,6337},{19010,0},{19017,6237},{19025,0},{16969,6341},{19022,0},{19034,0},{18979,6244},{19037,0},{19044,4812},{19041,4810},{19050,4826},{19075,6132},{15276,6355},{19073,0},{19098,4721},{19101,4874},{19070,0},{19076,0},{19079,0},{19082,0},{19088,0},{19083,4696},{19091,0},{16356,6364},{19097,0},{19106,0},{15712,6369},{18505,6374},{19117,6281},{19120,5800},{19111,6371},{19109,0},{19119,5928},{15534,6376},{18186,6377},{17826,6379},{19116,6378},{19115,0},{17764,6377},{19143,6380},{19148,0},{19161,6386},{18903,6383},{19157,0},{18907,6388},{18591,6389},{19154,0},{19124,0},{19183,6393},{19178,0},{19190,0},{19186,6391},{19172,0},{18258,6399},{19184,0},{19181,0},{19166,0},{19168,5955},{19207,6104},{17560,6401},{19211,0},{19175,0},{14715,6407},{18643,6409},{17559,6401},{18954,6404},{19241,0},{18642,6409},{17976,6412},{19233,4595},{19246,6328},{14334,6416},{19259,0},{19251,6119},{19254,5981},{19260,6123},{18312,6402},{19265,0},{3778,6427},{19279,6132},{14370,6424},{19245,6328},{19269,4014},{19284,4912},{19292,0},{17283,6431},{19270,4014},{19308,4627},{14970,6437},{14967,6438},{14988,6439},{19057,6440},{18396,6426},{19325,0},{19358,0},{19056,6440},{19338,6259},{19342,6147},{18441,6447},{19345,6147},{19344,6262},{14583,6450},{19353,4706},{19167,5955},{19335,4678},{14544,6443},{15027,6444},{3838,6530},{19362,6523},{19366,6280},{19372,5804},{19378,6170},{19369,6169},{19376,0},{15537,6460},{19379,0},{19373,0},{19365,6375},{19391,0},{19388,0},{19385,0},{19110,6466},{19403,0},{19402,5253},{19406,0},{19420,6201},{19424,0},{19370,0},{19425,6472},{19415,0},{19412,0},{19437,6100},{19404,6481},{18504,6476},{19432,6209},{19442,0},{19421,0},{19448,0},{18906,6485},{19431,6311},{19449,6484},{19462,6219},{19218,6486},{19468,6408},{19243,6494},{3778,6491},{19479,6492},{19484,0},{19464,6492},{19481,0},{19185,6490},{19467,6408},{14340,6498},{18672,6495},{19460,0},{19493,0},{19490,0},{19503,6003},{3637,6500},{19498,6226},{18352,6502},{19461,6329},{19514,0},{19517,0},{19275,6506},{19511,0},{19532,0},{19523,0},{3883,6509},{19535,0},{19525,6240},{19497,6343},{3778,6512},{19544,0},{4539,6515},{3906,6515},{14415,6516},{4791,6515},{3844,6518},{3637,6517},{4581,6515},{19524,6353},{3883,6519},{19565,0},{5934,6515},{19561,5766},{14619,6533},{17298,6520},{19574,0},{19577,0},{19579,5892},{17676,6526},{19585,6028},{19583,0},{19586,0},{19504,6003},{19589,0},{14595,6531},{19598,0},{3844,6534},{3838,6535},{19613,0},{19881,6270},{19615,5802},{19621,5811},{18189,6542},{19624,5812},{19618,5809},{17770,6542},{19617,5941},{19635,5939},{19632,6283},{19616,0},{19640,0},{19620,5935},{19631,0},{19644,6549},{18528,6547},{19656,6469},{19653,5295},{19657,6382},{19170,6553},{19668,6305},{19623,5974},{19663,5847},{19194,6555},{19434,6559},{19191,6558},{19690,5440},{18946,6564},{19685,0},{19688,0},{19682,0},{19673,0},{19709,0},{19706,0},{18651,6566},{19703,0},{19691,0},{19662,5988},{19695,6316},{19711,5867},{19715,0},{19716,6414},{18945,6564},{17305,6537},{19721,0},{19739,0},{19724,0},{19727,0},{19742,0},{19509,6572},{18924,6583},{3637,6581},{19242,6576},{19886,0},{19768,6422},{19763,0},{19772,0},{19760,0},{19712,0},{19765,5654},{19769,0},{19014,6591},{19766,0},{19748,0},{19719,6574},{19781,0},{19021,6593},{13158,6598},{19798,5359},{19793,0},{19539,6595},{19802,0},{19791,4985},{19805,0},{19811,0},{19814,0},{3883,6605},{19820,0},{19826,0},{19829,0},{19823,0},{19799,0},{19832,0},{19835,0},{19841,0},{19843,4932},{3838,6626},{3844,6615},{14796,6614},{19854,6617},{19850,0},{19862,0},{19864,5010},{19869,5785},{19865,0},{19610,0},{19889,0},{17304,6630},{19897,5810},{19909,5621},{19910,0},{19906,5817},{19904,0},{19900,5816},{19912,6464},{19932,6642},{19916,0},{19923,5949},{19896,5946},{19931,0},{19901,0},{19919,0},{19922,0},{19913,0},{19937,0},{19940,0},{19946,0},{19943,0},{19671,6649},{19952,0},{19964,0},{19960,5851},{19949,0},{19958,0},{19955,0},{19970,0},{19975,5441},{19983,6220},{19973,0},{19972,3555},{19215,6660},{19907,0},{16320,6667},{19230,6666},{20006,0},{20009,0},
{19989,6664},{20011,5542},{19961,0},{20021,0},{20013,6115},{20016,6576},{20013,6584},{20034,6585},{20024,0},{19963,6488},{20025,6677},{16323,6658},{19997,0},{20045,0},{20042,0},{19894,6041},{20048,0},{18717,6688},{20051,0},{19776,6687},{20071,4793},{16626,6670},{20067,6009},{20057,0},{20078,0},{20087,0},{20079,5463},{20073,6422},{20091,6596},{19299,6696},{20092,6596},{20072,0},{20105,0},{20099,0},{20096,0},{20100,5043},{14947,6692},{20111,0},{13188,6705},{20123,0},{13215,6706},{20124,4925},{20130,4928},{16077,6712},{19836,6713},{20145,4935},{20153,0},{20159,0},{19858,6720},{20162,0},{19866,6722},{20171,0},{20172,4296},{15030,6725},{20156,0},{20186,0},{20188,5722},{20189,0},{20197,5730},{20190,5291},{18543,6733},{20191,5250},{20193,5729},{20203,5628},{20216,0},{20223,5956},{20202,5737},{20210,0},{20207,0},{20219,0},{20226,6737},{20229,6740},{19392,6744},{19939,6735},{20241,6748},{19965,6750},{19200,6750},{20249,0},{19986,6753},{20265,6754},{20257,5356},{19464,6751},{20276,0},{20196,5863},{20286,5991},{10665,6759},{20272,4906},{20281,6761},{20285,0},{20282,0},{20291,0},{20298,6765},{20303,0},{19731,6751},{20318,0},{14718,6757},{20307,6002},{20294,0},{20305,6582},{20313,6317},{16068,6752},{20028,6770},{20333,0},{20336,0},{20330,0},{19072,6775},{20348,0},{19008,6782},{20354,0},{20355,6594},{20360,0},{20304,6694},{20366,0},{20363,0},{20369,0},{20384,0},{20379,4296},{15126,6791},{20387,0},{14379,6798},{20390,0},{20398,6800},{20403,4389},{20408,0},{20410,6434},{15762,6804},{20409,6434},{20404,4389},{20415,4988},{20421,4994},{13926,6808},{13950,6809},{20397,6800},{20432,0},{20149,6811},{13986,6812},{20435,0},{20163,6814},{20447,0},{19857,6816},{20453,0},{20459,0},{20462,0},{19326,6775},{19395,6823},{20472,5824},{20492,0},{20486,0},{20491,4096},{20489,0},{20485,6645},{20483,0},{20480,0},{20476,6550},{20470,6465},{20501,0},{20493,6836},{20516,0},{20505,6746},{20498,0},{20513,0},{20519,0},{20522,0},{20525,0},{20531,0},{20532,6659},{20526,6756},{20537,0},{20477,0},{20546,0},{20540,0},{20542,6665},{18981,6849},{20560,6764},{20568,6855},{20552,0},{20555,0},{20558,0},{20576,0},{20563,6846},{20582,0},{20597,0},{20541,6779},{20588,0},{20606,0},{20559,6864},{20591,0},{20603,0},{20583,6679},{20600,0},{20613,6686},{20617,6684},{20615,0},{20619,6429},{20643,6879},{20636,0},{20624,0},{20632,6880},{20625,6432},{19717,6876},{20651,0},{20631,6880},{20654,0},{20660,0},{20661,6885},{20670,5089},{20669,0},{20681,0},{4539,6894},{3778,6895},{3637,6896},{3844,6897},{3906,6894},{3838,6898},{4581,6894},{20699,0},{20705,0},{3883,6902},{5934,6894},{20148,6903},{20714,0},{20720,0},{20722,6818},{20721,6818},{19875,6908},{20626,6432},{20732,0},{20618,0},{4791,6894},{20466,6993},{20982,6684},{20735,0},{20738,0},{20751,6918},{20739,4296},{20745,6834},{20742,6745},{20746,6736},{20762,0},{20748,6919},{20764,6837},{20777,0},{20771,0},{20778,6922},{20763,6927},{20752,6827},{20523,6929},{20520,6930},{20801,0},{20796,6931},{20816,0},{20808,6578},{19650,6935},{20562,6937},{20825,0},{20829,6942},{20819,0},{20822,0},{20571,6944},{20322,6947},{20610,6950},{20840,0},{20854,6948},{20340,6956},{20865,6781},{20849,0},{20859,6954},{20913,6869},{20858,0},{20873,0},{20853,6948},{20882,0},{19761,6959},{20893,6961},{20897,0},{15267,6969},{20906,0},{20900,0},{20885,0},{20106,6967},{19723,6971},{14409,6973},{20916,6969},{20927,0},{20930,0},{20933,0},{20939,0},{20936,0},{20942,0},{20945,0},{20700,6982},{20954,0},{20957,0},{20876,0},{20960,0},{20962,6905},{20961,6905},{20972,0},{18451,6991},{20975,0},{20978,0},{20976,6726},{20987,0},{18784,6996},{20997,6998},{20773,7005},{21014,0},{21023,0},{21020,0},{21002,0},{21013,6923},{21005,0},{21008,0},{21011,0},{20784,7008},{21038,0},{21035,0},{21041,0},{21022,7006},{21044,0},{20772,7005},{21048,7015},{21032,0},{21062,0},{20578,7017},{21059,0},{19477,7018},{20835,7024},{20577,7017},{20319,7023},{20839,7022},{21080,0},{21077,0},{21068,0},{20836,7024},{20875,7031},{21088,7027},{21104,0},{21083,0},{21113,0},{21101,0},{21119,0},{21079,6685},
{19806,7041},{21122,0},{20892,7045},{20665,7046},{20910,7043},{21128,0},{21142,6675},{21146,0},{21149,0},{13239,7050},{21159,4421},{21168,4428},{21140,0},{21173,0},{21177,4436},{21207,4498},{21095,0},{21191,0},{20990,0},{20727,7064},{21197,0},{21180,6572},{21180,6576},{18450,7066},{19740,7060},{21206,0},{21201,6536},{20993,0},{21212,0},{14835,7125},{21215,0},{21225,7074},{21219,7009},{21234,7079},{21217,7010},{21240,7076},{21243,7012},{21226,7074},{21245,0},{21232,7071},{21258,6934},{21257,0},{21216,7089},{21263,0},{21266,0},{21274,7025},{21063,7090},{21281,0},{21287,0},{21290,0},{21284,0},{21084,7100},{21304,7033},{21273,7099},{21279,6682},{20370,7098},{21308,0},{19026,7102},{21311,0},{21312,6792},{21303,7107},{20886,7106},{21087,7105},{21327,6242},{21332,0},{21338,0},{21341,0},{21329,0},{21346,5043},{21344,0},{15129,7115},{20676,7118},{21352,4399},{21351,4399},{21357,4926},{14793,7120},{14799,7121},{20664,7122},{21370,6983},{14820,7124},{21196,7129},{19306,7110},{21369,6983},{20964,7127},{21384,6261},{21389,0},{21401,0},{21393,6503},{21396,6672},{21404,0},{21410,0},{19096,7138},{3844,7139},{21231,7140},{21425,0},{21431,0},{21434,0},{21428,0},{21437,0},{21444,7082},{21440,0},{21449,0},{21435,7151},{21458,0},{21276,7153},{20349,7157},{21470,0},{21467,0},{21090,7159},{21105,7160},{21096,7158},{21485,0},{21488,0},{21494,0},{21497,0},{21491,0},{20899,7169},{18723,7166},{21503,0},{21512,0},{21515,0},{21518,0},{21521,0},{21507,7044},{19305,7174},{21534,6700},{21535,6700},{18399,7177},{21538,7176},{21542,0},{21575,0},{21545,0},{4539,7182},{21551,0},{3778,7184},{3906,7182},{3637,7185},{4581,7182},{3838,7186},{21537,7176},{21563,0},{5934,7182},{3883,7189},{21578,0},{20968,7193},{19359,7138},{21581,0},{21584,0},{4791,7182},{21390,7195},{21593,0},{21596,0},{21588,6265},{21597,7137},{21600,6891},{21604,6821},{21611,0},{21616,7206},{21249,7204},{21441,7208},{21629,0},{21630,7084},{21615,7206},{21638,0},{21644,0},{21292,7214},{21647,0},{21648,7217},{21656,0},{21662,0},{21659,0},{20646,7224},{21669,6963},{21649,7217},{21683,0},{21680,0},{21690,7111},{21691,7111},{21701,0},{21702,6891},{21708,6346},{21707,0},{21713,0},{21710,0},{15894,7241},{21728,0},{14454,7243},{21737,0},{21734,0},{21740,0},{21743,0},{21749,0},{21746,0},{21755,0},{21758,0},{21183,7253},{21767,0},{21764,0},{20967,7256},{21776,0},{21779,0},{21704,0},{21605,0},{21780,7261},{21608,0},{21797,0},{21939,7263},{21621,7266},{21806,0},{21809,0},{21815,0},{21818,0},{21291,7274},{21827,0},{21833,0},{21828,7036},{21837,7222},{21114,7278},{21840,7168},{21838,7222},{21846,7108},{21845,0},{18735,7285},{18406,7285},{21860,0},{21841,7168},{21869,0},{21889,4029},{21872,0},{21717,7291},{21879,6246},{14979,7295},{21884,0},{14977,7294},{21890,0},{21891,4419},{21900,4432},{21750,7301},{21909,4440},{21187,7305},{21917,0},{21771,7306},{21926,0},{21927,4483},{21936,6821},{20991,7315},{21802,7317},{21953,0},{21957,7270},{21954,7211},{21639,7321},{21955,7211},{21796,7316},{21968,0},{21675,7324},{21977,0},{21980,0},{21983,0},{21986,0},{21998,0},{21525,7334},{22001,0},{22008,6974},{15592,7339},{4539,7337},{22022,0},{22029,6250},{15141,7342},{3778,7341},{13266,7344},{22030,6250},{3906,7337},{14790,7345},{4581,7337},{14811,7346},{22032,4173},{21565,7347},{14823,7348},{4791,7337},{22043,0},{22049,0},{21186,7350},{5934,7337},{19873,7351},{22055,0},{14889,7353},{21180,7315},{22064,0},{22067,0},{21826,7360},{22070,0},{21450,7358},{22074,7320},{21801,7357},{22082,0},{22079,0},{22088,0},{21663,7363},{21669,7365},{21988,7364},{21693,7368},{22094,0},{21990,7367},{21687,7366},{20112,7362},{21864,7369},{21715,7370},{22116,7338},{22120,6806},{22124,0},{22119,6806},{22133,0},{22130,0},{22136,0},{22139,0},{22145,0},{3637,7382},{22151,0},{22112,0},{3838,7384},{22155,1527},{3883,7387},{4539,7385},{22166,0},{21564,7389},{22160,0},{4791,7385},{22175,0},{22178,0},{22155,1978},{22181,0},{19872,7394},{22085,0},{3844,7395},{22188,7126},{22194,7397},{22077,7400},{22203,7154},{22208,0},{22211,0},{22083,7400},{21969,7404},
{22068,7405},{19803,7406},{22223,0},{22245,7228},{21850,7407},{22226,0},{22229,0},{22238,0},{21987,7411},{22241,0},{21862,7410},{22232,0},{22006,7413},{22244,0},{21307,7415},{22250,0},{13923,7419},{22125,7418},{22262,0},{22263,7422},{13959,7425},{13956,7424},{22280,0},{13980,7427},{21714,7428},{22289,0},{22292,0},{22294,5300},{22331,0},{22334,0},{14049,7433},{22302,7390},{22305,7390},{22310,0},{14067,7438},{22319,0},{19347,7440},{22325,0},{22295,0},{22326,7356},{19087,7440},{22304,0},{22298,0},{22335,7481},{22477,6156},{22340,0},{22344,7273},{22343,0},{22355,0},{22361,0},{22367,0},{21849,7454},{22370,0},{21696,7457},{22005,7461},{22388,0},{22382,0},{22394,0},{21861,7463},{18724,7466},{22404,4820},{15598,7471},{22415,0},{22416,4828},{3637,7473},{22425,4835},{22430,0},{13992,7478},{14169,7494},{22478,0},{22475,0},{22446,4853},{22451,0},{14058,7485},{22458,4857},{14097,7487},{22466,0},{22470,5258},{19323,7479},{22487,0},{22347,7497},{22494,7499},{22350,7498},{22197,7499},{22567,7356},{22608,7359},{22567,7537},{22503,7284},{22512,7458},{22509,7458},{22515,7459},{22518,7507},{22532,0},{22527,7507},{21852,7502},{3778,7512},{15768,7514},{22539,6351},{3637,7515},{22540,6351},{22550,0},{3838,7517},{3838,7519},{22592,0},{3844,7523},{22572,7437},{3844,7525},{3883,7526},{3883,7527},{22467,7528},{22511,0},{22563,6267},{22520,0},{22589,0},{3778,7520},{22593,7496},{22598,0},{22601,0},{22600,7361},{22602,7535},{22599,7450},{22617,7502},{22625,0},{22594,7496},{22628,0},{22631,0},{22635,7467},{22087,7546},{22643,0},{22646,0},{22649,0},{22652,0},{22661,0},{22664,0},{22670,0},{22676,0},{22679,0},{22681,5264},{22682,0},{22683,7135},{22637,0},{22685,0},{22700,0},{22691,0},{22703,0},{16648,7588},{22197,7568},{22356,7569},{20392,7570},{22712,0},{22715,0},{22718,0},{22721,0},{22722,7508},{22728,7292},{22731,7544},{22738,6704},{22743,7582},{16995,7588},{22769,0},{22770,5264},{22780,7067},{22775,0},{22779,6992},{22248,7592},{21792,7614},{22785,7596},{22596,7603},{22796,0},{22802,0},{22799,0},{20391,7601},{22801,7281},{22812,7465},{22820,0},{22821,7416},{16330,7609},{22829,0},{22823,0},{22840,6726},{22850,0},{22832,0},{22838,0},{22793,0},{22841,0},{22847,0},{22856,0},{22500,7620},{21993,7621},{22866,7538},{22858,7399},{22871,0},{22872,6349},{22726,7625},{22851,7240},{22198,7619},{22874,0},{22877,0},{22249,7632},{22950,7607},{22249,7651},{22884,6714},{16635,7629},{22890,7467},{22885,6714},{22908,6726},{18118,7631},{17316,7633},{15930,7634},{22895,0},{22914,7658},{22917,7602},{22928,0},{22923,7603},{22922,0},{22113,7647},{22937,0},{22934,0},{22940,0},{22725,7649},{18747,7648},{22975,7618},{22964,0},{22961,0},{22967,0},{22969,7477},{22968,7477},{22983,6272},{22768,7659},{22979,0},{22973,0},{22982,0},{22988,0},{22991,0},{22929,7666},{21349,7665},{22000,7664},{22997,0},{22990,7456},{21153,7668},{23003,0},{22251,7670},{22878,7669},{23015,0},{23018,0},{23021,0},{20929,7668},{23022,7675},{23028,7518},{22911,7682},{23050,5104},{22116,7670},{23036,0},{22833,7681},{23039,0},{15312,7683},{23117,0},{23118,7684},{22620,7685},{23063,0},{23066,0},{23060,0},{21348,7689},{23072,0},{23075,0},{23081,0},{23059,7687},{23084,0},{23096,0},{17647,7699},{23099,0},{23108,0},{23123,0},{23111,0},{22512,7685},{23105,0},{23129,0},{23132,0},{23133,7713},{23136,7333},{23146,7511},{23144,0},{22533,7715},{22407,7717},{23085,7716},{23157,7696},{23154,6709},{23156,0},{20953,7721},{23165,0},{17646,7722},{23172,7723},{23176,7293},{21720,7727},{23175,7236},{23180,0},{23182,7240},{23124,7724},{22815,7729},{23192,0},{23195,0},{23204,0},{23199,7692},{19824,7739},{23213,0},{23216,0},{23207,0},{23020,7736},{23210,0},{22660,7740},{21174,7741},{22752,7740},{23228,0},{23241,7562},{23231,0},{23233,6346},{20439,7748},{23234,0},{23240,0},{23237,0},{23246,0},{20152,7772},{23252,0},{23199,7751},{23196,7752},{22228,7765},{23250,7627},{23262,7753},{23262,7751},{23251,7464},{23091,7760},{21894,7759},{22410,7758},{23271,7756},{23267,0},{21733,7759},{23285,0},{23288,0},{23291,0},{23298,5259},{23306,0},
{23307,6346},{23313,7311},{23303,0},{23319,7728},{23320,7709},{22734,7774},{23330,0},{23327,0},{22825,7777},{23336,0},{23342,0},{23333,0},{23337,7751},{23095,7781},{23345,0},{23348,0},{23357,0},{22141,7784},{23351,0},{23354,0},{23363,0},{23034,7788},{23031,7788},{23292,7789},{20674,7794},{23381,0},{22527,7774},{23390,0},{23452,6143},{23393,0},{23396,0},{23401,7712},{23397,7753},{23064,7800},{23405,0},{23328,7803},{22824,7804},{23417,0},{23160,7807},{23424,7811},{23432,0},{22140,7812},{23427,7786},{23444,0},{19063,7816},{23450,0},{23310,7818},{23459,0},{23453,0},{23376,7820},{19822,7822},{22956,7823},{23480,0},{23473,7052},{23477,0},{20133,7822},{23474,0},{23418,7830},{23487,7806},{23486,0},{23489,0},{23495,0},{21165,7833},{23504,0},{23498,0},{23100,7823},{23512,7252},{23370,7836},{23513,0},{19062,7838},{23520,7564},{20941,7833},{23523,6266},{22255,7839},{22437,7838},{23528,0},{23599,6629},{23531,0},{23532,7802},{23530,7423},{23546,0},{23481,7847},{23535,7692},{23540,0},{22387,7863},{23555,0},{23547,7052},{23556,7753},{23567,0},{23539,7835},{22159,7858},{22663,7859},{23583,7304},{23588,0},{22755,7859},{23593,7586},{23600,0},{23601,6354},{23576,0},{23594,0},{23597,0},{23463,7868},{22330,7869},{23605,7821},{23610,7423},{23618,0},{23615,0},{23628,7786},{23622,7830},{23197,7875},{23362,7877},{23550,7874},{23613,7872},{23639,0},{23404,7880},{23562,7878},{23568,7881},{23651,0},{23633,0},{23648,0},{23654,0},{23663,0},{23657,0},{19566,7886},{22452,7891},{23666,0},{23676,7586},{22440,7869},{23667,6727},{22305,7891},{23672,0},{23684,0},{23687,0},{23693,0},{23689,7054},{23694,7899},{23705,0},{23708,0},{23700,7809},{23717,0},{23711,0},{23714,0},{23688,7054},{23722,7474},{23721,7474},{23572,7898},{22656,7903},{22654,7909},{23439,7911},{23729,0},{23571,7898},{23745,7914},{22438,7916},{22695,7923},{23753,0},{23759,0},{23768,0},{23762,0},{23765,0},{23679,7924},{23838,7555},{23619,7926},{23782,7580},{23786,0},{21739,7930},{23787,7853},{23795,0},{23781,7580},{22549,7933},{23724,7934},{21897,7930},{23807,0},{23813,0},{23825,0},{23819,0},{23822,0},{23814,7899},{23815,7871},{23831,0},{22653,7942},{23836,7944},{22671,7947},{21745,7940},{23834,0},{23837,0},{23853,7950},{23847,7493},{23858,0},{23302,7952},{23866,7954},{23496,7956},{23877,7906},{23864,0},{23873,0},{23419,7958},{23882,0},{23889,7936},{23884,7962},{23888,0},{23891,0},{23898,7967},{23909,0},{21906,7968},{22048,7979},{23918,0},{21763,7974},{23912,0},{23861,0},{23665,7978},{23936,0},{23924,0},{22675,7975},{22761,7975},{23859,7597},{23931,7976},{24023,0},{23385,7980},{21942,7981},{23948,0},{23951,0},{23865,7985},{23958,7936},{23954,0},{23963,0},{23637,7986},{23972,0},{23969,0},{23892,7988},{23962,7583},{23883,7991},{23793,7986},{23913,7994},{23911,7993},{23987,0},{23872,7984},{23981,0},{24001,7635},{23945,0},{22905,8000},{23996,0},{23754,8002},{24009,7307},{24014,0},{24017,0},{24020,0},{23990,0},{24095,0},{24029,0},{24033,7932},{24041,0},{24048,7583},{24042,8015},{24053,0},{23895,8019},{24071,0},{24068,0},{24062,0},{24065,0},{24075,8018},{23947,8024},{23991,8026},{23997,8028},{24081,7912},{24082,7912},{21607,8030},{24101,0},{24104,0},{24087,7973},{24032,0},{23040,8037},{24120,8061},{24123,8012},{24134,0},{24129,8018},{24140,0},{24135,7992},{24150,8015},{24150,8018},{24157,7910},{24131,0},{24156,7883},{24153,8050},{24161,0},{24164,0},{24170,0},{24172,7594},{22056,8059},{24180,7680},{24024,8039},{23844,8058},{23032,8053},{24171,7594},{24191,0},{24235,7910},{24194,0},{24200,0},{23686,8063},{24138,8065},{24204,8047},{24150,8067},{24207,8014},{24215,0},{23445,8075},{24221,0},{21571,8079},{24013,8082},{24254,0},{24248,0},{24239,0},{24251,0},{23031,8075},{24234,7910},{23775,8085},{24259,8020},{24261,8042},{24258,8049},{24264,8048},{24272,0},{23809,8091},{24278,0},{24281,0},{24064,8090},{24287,0},{24293,0},{24314,0},{24105,8100},{24303,7190},{24311,0},{24317,0},{24320,0},{24323,0},{24326,0},{24329,0},{24210,8110},{24336,8072},{24335,0},{24222,8110},{23580,8115},{24334,8055},{24295,8116},
{24297,8117},{24350,0},{24356,0},{24359,0},{24360,7704},{23284,8137},{24369,8122},{24268,8133},{24380,0},{24075,8125},{24165,8128},{24381,8113},{24389,0},{24392,0},{23653,8130},{24169,8131},{24231,8131},{24370,8122},{24294,8134},{24108,8135},{21930,8136},{24398,0},{24401,0},{24250,8152},{24429,8114},{23971,8144},{24419,0},{24421,7996},{24451,7996},{24428,0},{24327,8141},{23988,8150},{23739,8146},{24441,7973},{24394,8148},{24501,1198},{24394,8168},{24343,8143},{24449,0},{24267,8155},{24455,0},{24458,0},{24460,7262},{24422,0},{24507,8077},{24481,7998},{24372,8159},{24219,8161},{24282,8161},{24228,8162},{24076,8163},{24494,0},{24471,8158},{24497,0},{24484,8073},{24512,0},{24513,1198},{24528,8038},{18808,8175},{24475,8157},{24476,0},{24498,8029},{24306,8174},{24495,7973},{24518,0},{24480,8032},{24363,8197},{24575,0},{24535,8179},{24542,0},{24551,0},{24546,8145},{24590,0},{24533,0},{24565,8189},{24582,7680},{24578,0},{24447,8188},{24550,8185},{24472,8193},{24539,0},{24536,0},{24587,0},{24596,0},{24572,0},{24599,0},{24469,8200},{24614,0},{24004,8199},{24543,8201},{24606,8184},{24214,8204},{24555,8203},{24024,8205},{24624,7702},{24630,8209},{24631,8192},{24531,8207},{24468,8200},{24642,8213},{24243,8205},{24651,8216},{24003,8218},{24282,8220},{24543,8220},{24666,8220},{24665,0},{24675,8224},{24704,0},{24681,5259},{24673,8225},{24686,0},{24684,8211},{24674,0},{24637,8229},{24741,1198},{24637,8248},{24692,0},{24671,0},{24680,0},{24698,0},{24695,0},{24701,0},{24707,0},{24762,8215},{24710,0},{24713,0},{24716,0},{24724,8239},{24720,8187},{24726,5142},{24186,8255},{24731,0},{24732,1198},{24736,8243},{24690,8249},{24676,8246},{24753,8201},{24087,8252},{24723,8239},{24774,8096},{24669,8259},{24784,8116},{24818,0},{24348,8261},{24415,8257},{24794,0},{24735,8265},{24634,8266},{24808,8267},{24846,1198},{24808,8283},{24806,0},{24812,0},{24815,0},{24773,0},{24768,8276},{24484,8273},{24414,8288},{24836,0},{24604,8274},{24833,0},{23247,8279},{24861,8039},{24825,8220},{24666,8275},{24842,0},{24804,8281},{23124,8279},{24858,8253},{24869,0},{24872,0},{24873,8147},{24906,8260},{24881,0},{24441,8292},{24397,8289},{24887,0},{24908,0},{24871,8240},{24897,1198},{24900,8284},{24902,0},{24905,0},{24894,8220},{24891,8222},{24875,0},{24462,8303},{24917,0},{24720,8304},{24826,8306},{24953,0},{24927,8191},{24956,0},{23373,8310},{24840,8312},{24928,8200},{24937,8313},{24944,0},{24825,8311},{24924,8080},{24948,7702},{24962,0},{24963,8186},{24966,8307},{24971,0},{24977,0},{24998,0},{24983,0},{25004,0},{24880,8322},{24989,0},{24972,8294},{24968,0},{24942,8330},{24519,8335},{25013,0},{25014,8307},{24984,8343},{25032,8275},{25023,5361},{25032,8220},{24831,8344},{25031,0},{25035,8340},{25039,8307},{25043,0},{24987,8339},{24978,8340},{25017,8294},{23172,8342},{25046,0},{24786,8350},{24988,8357},{25047,8323},{25082,0},{25061,0},{25083,8362},{25062,8298},{25067,0},{25069,8328},{25055,0},{24658,8348},{25056,8311},{24657,8364},{25112,0},{24876,8368},{25097,0},{25103,0},{25099,8365},{25130,0},{13365,8369},{25095,8366},{25115,0},{25122,1198},{25100,0},{25075,8373},{25167,1198},{25075,8390},{25127,0},{25131,8292},{25137,8392},{24441,8378},{25143,8380},{25148,0},{25104,8392},{25152,5142},{25158,8372},{25149,8339},{25041,8391},{25165,8365},{25133,0},{25181,0},{25179,8147},{25185,8394},{25190,0},{25199,0},{25182,8378},{25200,8401},{25208,0},{25194,8378},{25215,8319},{25220,0},{25223,0},{25053,8408},{25126,8411},{25225,8387},{25241,0},{25232,0},{25242,8421},{25008,8415},{25255,8385},{25147,8417},{25251,8397},{25155,8418},{25206,8419},{25212,8420},{25268,0},{25281,8333},{25281,8292},{25269,8416},{24442,8422},{24924,8427},{25274,0},{24835,8429},{25273,8426},{25210,8425},{25317,1198},{25210,8440},{25286,0},{24624,8430},{24498,8430},{25298,0},{23920,8433},{25307,0},{25312,8278},{25344,8427},{25312,8449},{25308,8397},{25295,0},{13365,8430},{25313,0},{25304,0},{25284,8441},{25309,8438},{25371,1198},{25309,8458},{25305,8060},{24726,8430},{24582,8430},{25293,7702},{25290,8227},{25331,0},
{25334,0},{25302,8445},{25340,0},{25339,8435},{25352,0},{25353,8417},{24789,8453},{25391,0},{25282,8454},{25297,8455},{25368,8459},{25370,0},{25382,0},{25388,0},{25385,0},{25394,0},{24903,8465},{24678,8466},{25403,0},{25305,8468},{25409,0},{25089,8481},{25418,0},{24888,8479},{25413,8470},{25414,8450},{25342,8468},{25430,0},{25059,8480},{23107,8482},{24088,8483},{25452,8447},{25460,0},{23041,8489},{25484,0},{25464,8409},{15427,8494},{25423,8491},{25509,1198},{25423,8504},{15778,8487},{25487,0},{25489,8485},{25493,0},{25490,0},{25499,0},{25294,8495},{25520,0},{25503,5306},{25428,8505},{25508,0},{15804,8500},{15426,8500},{25434,8499},{25518,8473},{25506,1305},{15606,8500},{25521,8513},{25524,8470},{25413,8509},{25455,8510},{25521,8511},{14011,8514},{25470,8509},{25528,8490},{25456,8510},{25547,0},{25553,0},{25556,0},{25548,8431},{25568,0},{25521,4455},{25559,0},{25562,0},{25293,8523},{25572,8498},{25578,8511},{25614,8452},{25534,8526},{25578,8527},{25605,8523},{25611,8513},{25586,0},{25602,5210},{25426,8530},{25650,1198},{25426,8551},{25587,8498},{25459,8529},{16992,8533},{13335,8528},{15921,8536},{25622,0},{25507,8540},{25575,8541},{25631,0},{25522,8542},{13366,8549},{25635,5301},{25666,5003},{25640,0},{14866,8557},{25605,8547},{25658,0},{25525,8553},{25477,8554},{25713,1198},{25477,8572},{25626,8513},{25667,0},{25626,8507},{25617,8558},{25682,0},{25680,8561},{25691,0},{25536,8561},{25698,8563},{25703,0},{25706,0},{15009,8563},{25707,8515},{25594,8570},{25761,1198},{25594,8588},{25722,8507},{25697,0},{25519,8576},{15009,8575},{25704,4670},{25563,8567},{25733,0},{25537,8579},{25735,8543},{25692,8580},{25743,8560},{25749,4670},{25748,0},{25753,8548},{25758,8573},{25769,0},{25549,8590},{25770,5142},{25781,0},{25760,0},{25668,8595},{25784,0},{25677,8596},{25633,8598},{25839,1198},{25633,8614},{25687,8597},{25848,1198},{25687,8617},{25797,4670},{25803,8568},{25806,8584},{25833,8567},{25799,0},{25814,0},{25800,8585},{25812,8605},{25800,8596},{25741,8607},{25798,8548},{25732,8600},{15180,8608},{25836,8610},{25847,0},{25856,0},{25865,0},{25862,0},{25868,0},{25836,8600},{25880,0},{25678,8627},{25857,8583},{25696,5003},{25926,8620},{25696,8643},{25777,8630},{25935,1198},{25777,8646},{25750,8619},{25860,5003},{14107,8631},{25896,8625},{25899,8634},{25809,8635},{25911,8636},{25923,5003},{25914,8635},{25906,8638},{25819,8640},{25974,1198},{25819,8659},{25924,8591},{25878,8633},{25952,0},{25797,8650},{25955,0},{25994,0},{25964,0},{25914,8653},{25956,8626},{25810,8656},{25885,8657},{26013,1198},{25885,8672},{25982,0},{25878,8652},{25988,0},{25966,8623},{26031,8650},{25966,8678},{3594,8665},{26009,0},{26004,8667},{26002,8668},{25888,8670},{26052,1198},{25888,8685},{26021,0},{26022,8647},{26007,8647},{26042,0},{25933,8682},{26060,0},{25945,8683},{26079,1198},{25945,8694},{26025,8688},{26046,8644},{26069,0},{25998,8690},{25984,8691},{26100,1198},{25984,8701},{26061,8692},{26087,0},{26088,8687},{25948,8697},{26090,0},{26099,0},{26108,0},{26112,8696},{26117,0},{26109,8696},{25990,8706},{26124,8681},{26124,8206},{26124,8359},{26124,8315},{26124,8285},{26124,8331},{26124,8250},{26124,8639},{26124,8532},{26109,8709},{26124,8477},{26124,8493},{26136,8704},{26124,8711},{26124,8442},{26124,8056},{26124,8698},{26138,0},{26124,8676},{26038,8713},{26199,1198},{26038,8734},{26124,8609},{26124,8412},{26124,8707},{26124,8624},{25942,8714},{24853,8717},{24748,8720},{24844,8718},{24622,8715},{26207,0},{25855,8732},{25846,8721},{25720,8736},{25981,8730},{25258,8737},{25378,8724},{26020,8738},{24508,8729},{25324,8728},{26059,8727},{25657,8722},{24991,8719},{25174,8716},{25768,8739},{26169,8710},{25516,8725},{26180,0},{26124,8731},{26223,8743},{26246,0},{26264,0},{26285,0},{26270,0},{26234,0},{26276,0},{26258,0},{26249,0},{26086,8763},{26222,0},{26226,8744},{26255,0},{26252,0},{26243,0},{26240,0},{26235,1305},{26271,8741},{26274,8743},{26262,8750},{26283,8751},{26279,0},{26243,0},{26261,0},{26228,0},{26231,0},{26282,0},{26124,8762},{26274,8754},{26226,8741},
{26271,8758},{26267,0},{26225,0},{26273,0},{26327,0},{26220,8779},{26107,8791},{26325,8753},{26223,8789},{26382,8784},{26244,8768},{26316,8771},{26351,0},{26321,0},{26124,8790},{26346,8781},{26352,8783},{26304,8786},{26244,8785},{26262,8777},{26277,8786},{26232,8787},{26358,8785},{26313,8748},{26376,8761},{26341,8808},{26385,8807},{26429,0},{26433,8812},{26397,8771},{26313,8807},{26441,0},{26427,8801},{26402,0},{26451,8740},{26399,0},{26341,8808},{26265,8807},{26421,8786},{24531,8801},{26408,0},{26447,0},{26352,8806},{26450,0},{26292,8798},{26444,0},{26397,8837},{26481,8819},{26466,8810},{26469,8772},{26516,0},{26510,0},{26379,8835},{26430,8821},{26472,8819},{26475,8751},{26484,8830},{26517,8779},{26487,8805},{26427,8833},{26502,8757},{26460,8827},{26495,0},{26522,0},{26555,0},{26543,0},{26565,8819},{26528,0},{26526,8843},{26549,0},{26568,8827},{26540,0},{26558,0},{26409,8844},{26412,8845},{26550,8832},{26571,8805},{26562,8865},{26466,8859},{26580,8861},{26586,8860},{26283,8863},{26220,8858},{26604,8820},{26603,0},{26594,0},{26612,0},{26637,8819},{26624,0},{26618,0},{26619,8843},{26478,8874},{26615,0},{26634,8866},{26559,8874},{26630,0},{26627,0},{26460,8880},{26670,8768},{26454,8886},{26645,0},{26657,0},{26529,8883},{26654,0},{26667,8772},{26631,8887},{26675,0},{26682,8774},{26699,0},{26690,0},{26696,0},{26691,8882},{26691,8895},{26681,0},{26523,8900},{26676,8907},{26580,8903},{26703,8841},{26544,8904},{26724,8902},{26691,8910},{26652,8910},{26295,8908},{26724,8759},{26724,8747},{26238,8908},{26732,0},{26735,0},{26726,0},{26738,0},{26724,8756},{26221,8778},{26775,8908},{26221,8926},{26729,0},{26331,8913},{26298,8913},{26741,0},{26652,8920},{26307,8913},{26607,8928},{26682,8923},{26328,8913},{26268,8922},{26295,8922},{26388,8913},{26766,8774},{24168,8913},{26364,8913},{26224,8742},{26829,8913},{26224,8944},{26272,8743},{26838,8913},{26272,8947},{26361,8913},{26760,8897},{26275,8741},{26853,8913},{26275,8952},{26739,8770},{26739,8797},{26739,8767},{26241,8922},{26238,8922},{26247,8922},{26766,8767},{26812,8938},{26883,8935},{26812,8962},{26850,8882},{26850,8874},{26805,8913},{26793,8788},{26361,8931},{26367,8931},{26388,8931},{26846,0},{26837,0},{26307,8931},{26881,8937},{26922,8935},{26881,8975},{26879,0},{26364,8931},{26749,8917},{26937,8935},{26749,8980},{26872,8958},{26946,8935},{26872,8983},{26861,0},{26310,8931},{26331,8931},{26277,8935},{26793,8767},{26807,0},{26876,0},{26819,0},{26867,0},{26298,8931},{26755,8919},{26985,8935},{26755,8996},{26804,0},{26822,0},{26328,8931},{26238,8990},{26805,8998},{26891,0},{26998,8977},{27012,8935},{26998,9005},{26993,0},{26898,8765},{26930,0},{26954,0},{26945,0},{26751,8990},{26814,8990},{26984,0},{26963,0},{26898,8749},{27001,8989},{27051,8935},{27001,9018},{26898,8752},{26898,8755},{26974,8927},{27066,8935},{26974,9023},{26788,8930},{27075,9002},{26788,9026},{27059,0},{27006,8931},{26977,8993},{27090,9002},{26977,9031},{27008,0},{27021,9006},{26983,8929},{27105,9002},{26983,9036},{27062,0},{27065,0},{27046,9014},{27120,9002},{27046,9041},{26863,9000},{27129,9002},{26863,9044},{26808,9002},{26799,9002},{26910,9002},{26823,9002},{26907,9002},{26826,9002},{27026,0},{26919,9002},{27006,8971},{27003,8841},{26934,9002},{26847,9002},{26772,9002},{26809,8956},{27177,9002},{26809,9060},{26866,8954},{27186,9002},{26866,9063},{27030,9011},{26959,8987},{27198,9002},{26959,9067},{27006,8985},{27038,0},{27050,0},{27041,0},{27083,0},{27185,0},{27113,0},{27206,0},{27099,8913},{27072,9070},{27209,0},{27194,0},{27099,8931},{27087,8747},{26790,9033},{26799,9033},{26904,9033},{26847,9033},{26901,9033},{27137,0},{26907,9033},{27143,0},{27146,0},{27155,0},{26916,9033},{27140,0},{27087,8787},{27149,0},{27152,0},{27164,0},{27161,0},{27087,8056},{27167,0},{27099,8767},{27104,0},{27173,0},{27170,0},{27087,8755},{27087,8773},{27176,0},{27087,8800},{27197,0},{27222,9003},{26742,9103},{27126,9080},{27231,8749},{27219,9028},{27228,9032},{27236,0},{27231,8752},{27243,8755},{27243,8773},{27323,0},{27329,0},
{27315,9104},{27231,8756},{27243,8759},{27263,0},{27257,0},{27269,0},{27248,0},{27260,0},{27254,0},{27264,9075},{27243,8056},{27251,0},{27273,9092},{27287,0},{27291,9090},{27281,0},{26931,9101},{26796,9100},{26892,9100},{27231,8056},{27243,8769},{26895,9100},{26367,9077},{26965,9102},{27438,8908},{26965,9147},{26892,9103},{27243,8752},{27231,8774},{26892,9110},{26742,9110},{26391,9081},{27320,0},{27216,9108},{27431,0},{27428,0},{27449,0},{27335,0},{27341,0},{27363,9038},{27347,0},{27350,0},{27338,0},{27374,0},{27377,0},{27378,9130},{27398,0},{27402,9094},{27387,9052},{27381,9096},{27384,9131},{27401,0},{27294,9138},{26892,9117},{27422,0},{27417,8921},{27425,0},{26742,9117},{27465,9071},{27344,0},{27359,0},{27434,0},{27458,0},{27366,9039},{27362,0},{27356,0},{27461,0},{27452,0},{27455,0},{27446,0},{27464,0},{27437,0},{27549,9182},{26796,9160},{27542,0},{27579,9194},{27474,9157},{27501,9166},{27522,9136},{27516,9099},{27027,9170},{26745,9169},{27411,9168},{27405,9173},{27527,0},{26796,9169},{26892,9160},{26892,9164},{26892,9163},{26742,9163},{26742,9169},{26796,9164},{26742,9161},{27555,9184},{27530,0},{26892,9161},{26796,9161},{26742,9160},{27536,0},{660,9179},{26892,9169},{26745,9161},{27570,9191},{26742,9164},{26796,9163},{26745,9164},{27561,9188},{27576,9156},{27692,0},{27597,9123},{27590,0},{27594,9079},{27513,9200},{27608,0},{27620,0},{27605,0},{27617,0},{27611,0},{27614,0},{26850,9207},{26796,9207},{27632,0},{27638,0},{27626,0},{27644,0},{27641,0},{27635,0},{27647,0},{27629,0},{27656,0},{26742,9207},{26745,9207},{27659,0},{26892,9221},{27662,0},{27674,0},{27486,9195},{27671,0},{27680,0},{27558,9229},{27686,0},{27543,9225},{27683,0},{27668,0},{27764,0},{27771,9255},{27789,9189},{27704,0},{27707,0},{27698,0},{27693,8964},{27495,9241},{26742,9238},{26850,9237},{27693,8914},{26742,9236},{27718,9100},{27837,8910},{27718,9280},{26745,9238},{26796,9237},{26745,9236},{26796,9238},{26742,9237},{26742,9240},{26895,9238},{26745,9239},{26742,9239},{26796,9236},{27728,0},{27731,0},{27732,9177},{26745,9237},{26892,9240},{26895,9236},{26796,9240},{26892,9238},{27770,0},{26892,9236},{27699,9197},{27761,0},{26796,9231},{27887,0},{27893,0},{27896,0},{26796,9272},{26742,9272},{26892,9271},{26796,9270},{26850,9270},{26745,9272},{26742,9270},{27857,0},{27860,0},{27477,9267},{27836,0},{27827,0},{27830,0},{27869,0},{27833,0},{27863,0},{27866,0},{27851,0},{27848,0},{27854,0},{27821,0},{26652,9281},{27872,0},{27875,0},{27909,9260},{27744,9293},{27906,9258},{27845,0},{26895,9272},{26745,9270},{27795,9300},{26715,9281},{26742,9271},{26892,9272},{27890,0},{27914,0},{27960,9319},{27954,9292},{28022,0},{27822,9343},{27938,0},{27929,0},{27935,0},{27941,0},{27932,0},{27926,0},{27948,9315},{27944,0},{27804,9305},{27951,9306},{28026,9261},{27651,9324},{27966,9246},{27984,9327},{27750,9325},{27989,0},{27753,9326},{27648,9321},{27969,9247},{27996,9331},{27882,9330},{27807,9307},{28010,0},{28013,0},{28059,9249},{28044,9349},{28056,9351},{28042,9345},{28125,8874},{28042,9376},{27735,9350},{28034,0},{28062,9252},{28095,9366},{28074,9363},{28092,9362},{28083,9333},{28068,9359},{28071,9360},{28037,0},{28003,9344},{28164,8874},{28003,9389},{28103,0},{28106,0},{28108,9335},{28179,8874},{28108,9394},{28110,9371},{28038,9338},{28122,9378},{28116,9355},{28121,0},{28131,9262},{28170,9259},{28191,9396},{28157,0},{28160,0},{28142,0},{28151,0},{28148,0},{28145,0},{28161,8882},{28137,8882},{28154,0},{28185,9264},{28208,0},{28196,0},{28199,0},{28200,8882},{28205,0},{28241,0},{28211,0},{1,0},{28264,9266},{28264,9299},{28264,9301},{28264,9341},{28264,9339},{28264,9411},{28264,9410},{28264,9417},{28264,9392},{28264,9406},{28264,9391},{28264,9416},{28264,9408},{28264,9407},{28264,9412},{28264,9415},{28264,9409},{28264,9404},{28264,9405},{28264,9420},{28264,9419},{28264,9414},{28264,9418},{28264,9002},{28264,8931},{28264,8920},{28264,8906},{28264,8882},{28264,8895},{28264,8895},{28264,140},{28264,8708}
