// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{42,23},{51,23},{18,23},{33,23},{60,23},{74,0},{36,23},{24,23},{30,23},{77,0},{54,23},{6,23},{12,23},{3,23},{71,0},{83,0},{89,0},{75,24},{0,23},{95,0},{39,23},{63,23},{92,0},{15,23},{86,0},{27,23},{80,0},{48,23},{78,25},{84,29},{81,26},{69,24},{45,23},{57,23},{66,23},{9,23},{21,23},{128,0},{110,0},{122,0},{119,0},{104,0},{107,0},{112,23},{116,0},{124,63},{101,0},{98,0},{131,0},{134,0},{137,0},{147,23},{111,41},{197,0},{138,54},{206,0},{173,0},{200,0},{81,61},{194,0},{189,60},{179,0},{158,0},{161,0},{167,0},{203,0},{144,56},{174,47},{233,0},{227,0},{90,90},{225,77},{251,0},{249,26},{297,98},{258,84},{276,90},{186,83},{300,75},{300,101},{303,77},{308,0},{142,105},{313,26},{309,50},{329,0},{90,108},{326,0},{321,106},{327,28},{362,0},{352,28},{357,54},{145,121},{347,0},{344,0},{336,46},{333,46},{153,118},{356,0},{330,50},{93,118},{366,46},{66,122},{375,113},{371,0},{374,0},{386,0},{392,0},{342,123},{375,131},{366,131},{398,0},{401,0},{15,134},{48,134},{33,134},{57,134},{30,134},{21,134},{24,134},{27,134},{39,134},{51,134},{9,134},{3,134},{0,134},{407,0},{411,124},{411,127},{408,138},{410,0},{12,134},{60,134},{423,115},{45,134},{42,134},{36,134},{54,134},{63,134},{18,134},{366,140},{6,134},{467,0},{461,0},{449,0},{455,0},{440,0},{446,0},{452,0},{458,0},{443,0},{464,0},{470,0},{473,0},{476,0},{477,46},{480,126},{372,163},{486,141},{512,0},{518,0},{515,0},{486,123},{503,0},{506,0},{498,142},{509,0},{497,0},{494,0},{524,0},{264,182},{213,176},{222,181},{207,175},{228,180},{237,184},{210,177},{234,183},{219,179},{216,178},{240,186},{246,187},{243,185},{566,0},{567,163},{570,161},{573,115},{573,126},{570,137},{285,200},{261,193},{255,192},{585,127},{291,202},{273,197},{267,194},{585,114},{596,0},{282,199},{279,196},{288,201},{674,0},{611,0},{626,0},{617,0},{695,0},{671,0},{614,0},{638,0},{620,0},{629,0},{698,0},{701,0},{635,0},{623,0},{632,0},{683,0},{641,0},{680,0},{644,0},{668,0},{647,0},{309,216},{330,216},{686,0},{654,115},{651,114},{654,126},{657,116},{687,126},{687,115},{675,115},{690,138},{333,216},{675,126},{651,127},{336,216},{336,248},{336,235},{330,249},{705,103},{336,242},{309,247},{330,244},{309,243},{333,236},{309,237},{309,234},{336,240},{333,246},{330,241},{333,245},{333,238},{330,239},{333,248},{403,257},{864,101},{403,289},{309,249},{333,242},{333,235},{330,243},{309,241},{333,250},{330,234},{336,246},{309,251},{330,254},{333,253},{330,237},{336,238},{336,253},{336,252},{767,0},{770,0},{309,236},{309,240},{330,236},{333,241},{333,254},{336,254},{309,246},{330,257},{336,241},{336,247},{333,247},{336,244},{751,50},{960,101},{751,321},{309,242},{330,246},{330,240},{333,243},{309,248},{336,236},{333,237},{330,238},{330,252},{333,240},{336,249},{330,247},{336,251},{309,244},{309,245},{777,129},{309,252},{785,0},{309,254},{336,239},{333,234},{753,111},{797,0},{333,249},{333,252},{309,257},{333,239},{330,253},{792,116},{336,237},{336,245},{336,234},{330,235},{777,266},{330,248},{330,251},{336,243},{330,242},{336,250},{804,266},{804,129},{309,239},{309,238},{333,244},{309,253},{809,0},{330,245},{851,0},{836,0},{833,0},{845,0},{824,0},{830,0},{848,0},{827,0},{821,0},{818,0},{860,0},{812,0},{854,0},{839,0},{842,0},{815,0},{857,0},{887,0},{890,0},{902,0},{870,77},{878,0},{884,0},{896,0},{914,0},{911,0},{863,0},{905,0},{908,0},{899,0},{917,0},{893,0},{881,0},{875,0},{300,290},{300,322},{956,0},{971,0},{950,0},{947,0},{977,0},{935,0},{932,0},{959,0},{953,0},{929,0},{941,0},{944,0},{974,0},{938,0},{926,0},{980,0},{998,0},{1010,0},{966,77},{1004,0},{1007,0},{995,0},{983,0},{986,0},{989,0},{1001,0},{992,0},{1013,0},{1016,0},{657,339},{1109,0},{1028,0},{1034,0},{1049,0},{1097,0},{1040,0},{1103,0},{1055,0},{792,339},{1064,0},{1082,0},{1061,0},{1076,0},{1079,0},{1091,0},{1088,0},{1085,0},{1067,0},{1058,0},{1070,0},{1073,0},{1094,0},{1043,0},{1025,0},{1052,0},{1100,0},{1046,0},{1031,0},{1158,384},{1143,379},{1128,377},{1119,370},{1113,372},{1122,375},{1134,438},{1146,383},{1155,380},{1188,306},{1182,401},{1164,387},{1179,389},{1197,400},
{1206,403},{1185,398},{1191,307},{1172,0},{1173,392},{777,404},{1239,412},{1218,407},{1257,415},{1251,416},{1224,418},{1217,0},{1233,420},{417,409},{1242,410},{1266,423},{1278,427},{1290,428},{1287,425},{1293,432},{1307,0},{657,424},{1347,446},{1383,462},{792,424},{1334,0},{804,404},{1341,448},{1374,457},{1104,460},{1317,440},{1356,144},{1323,442},{1362,453},{1335,456},{1311,436},{1410,513},{1395,464},{1407,468},{1416,471},{1401,466},{1428,475},{1433,0},{1442,0},{1446,481},{1437,478},{1422,473},{1451,0},{1461,489},{1452,485},{1473,421},{1464,486},{1476,490},{1488,493},{1491,495},{1482,433},{1499,0},{1536,510},{1508,0},{1514,0},{1515,506},{1527,459},{1533,508},{1500,501},{1521,463},{1556,0},{1544,0},{1547,0},{1619,0},{1553,0},{1550,0},{777,521},{1568,0},{1571,0},{657,520},{1559,0},{1574,0},{1592,0},{1580,0},{1625,0},{1589,0},{1583,0},{1586,0},{1616,0},{660,520},{774,521},{1601,0},{1598,0},{1595,0},{1622,0},{1607,0},{1628,0},{789,521},{801,520},{804,521},{792,520},{780,547},{780,543},{657,546},{1018,544},{1731,115},{1018,578},{774,545},{774,548},{1649,0},{1658,0},{1660,116},{1752,126},{1660,585},{774,550},{780,551},{774,554},{378,554},{774,557},{780,555},{657,556},{1654,561},{1782,126},{1654,595},{774,560},{780,559},{1675,424},{1797,126},{1675,600},{657,547},{780,545},{1688,0},{1691,0},{774,565},{388,557},{1821,126},{388,608},{777,569},{780,553},{660,564},{780,566},{657,567},{774,566},{799,568},{1848,126},{799,617},{780,544},{1666,556},{1860,126},{1666,621},{777,550},{774,559},{780,558},{777,560},{789,568},{657,561},{786,566},{789,550},{789,569},{786,565},{789,560},{786,559},{792,547},{786,545},{1715,0},{1712,0},{792,561},{789,554},{792,543},{786,551},{801,546},{1213,548},{1932,126},{1213,645},{786,553},{804,550},{789,566},{660,561},{804,554},{801,564},{792,567},{657,551},{804,569},{786,544},{789,565},{804,560},{789,559},{786,558},{657,555},{660,556},{789,548},{786,543},{792,546},{786,547},{789,545},{774,568},{1718,0},{1721,0},{792,564},{792,556},{786,555},{786,567},{657,564},{780,565},{657,543},{660,546},{780,567},{789,557},{774,569},{1737,191},{1742,0},{1724,0},{1886,0},{1745,0},{1730,0},{1727,0},{1763,0},{573,586},{1749,582},{1769,0},{1766,0},{1796,0},{1793,0},{573,601},{1775,0},{1778,0},{1781,0},{1771,596},{2100,127},{1771,701},{1811,0},{1808,0},{1815,604},{1828,622},{2118,127},{1828,707},{1841,0},{1832,0},{1844,0},{1838,0},{1820,0},{1847,0},{654,618},{1835,0},{1871,0},{1859,0},{1874,0},{1880,0},{1877,0},{2042,0},{2021,0},{654,646},{2036,0},{2033,0},{2030,0},{2045,0},{1889,0},{1892,0},{675,586},{1895,0},{1737,225},{1898,0},{1901,0},{1904,0},{675,601},{1907,0},{1910,0},{1922,0},{1919,0},{1928,0},{1925,0},{687,646},{1931,0},{1946,0},{1943,0},{1949,0},{1955,0},{1952,0},{1961,0},{1958,0},{687,618},{1964,0},{1967,0},{1970,0},{1973,0},{1979,0},{1982,0},{1976,0},{1985,0},{1988,0},{654,609},{2003,0},{2000,0},{1997,0},{1991,0},{1994,0},{2018,0},{2015,0},{2010,669},{2006,0},{2024,0},{2039,0},{1883,0},{2027,0},{2127,685},{2061,688},{2048,0},{2052,683},{2058,525},{2072,0},{2079,692},{2097,698},{2091,434},{2090,0},{2082,695},{663,702},{2112,703},{2130,718},{2142,340},{2139,498},{2151,716},{2147,0},{663,708},{2127,689},{2133,712},{2157,534},{2160,721},{2319,775},{2310,451},{2178,725},{2174,0},{2195,0},{2187,730},{2202,732},{2201,0},{2213,0},{2208,735},{2214,637},{2217,638},{2220,741},{2234,0},{2229,745},{2241,748},{1329,746},{2247,750},{2261,0},{2253,752},{2268,757},{2265,503},{585,708},{585,702},{2277,758},{2280,536},{2291,0},{2283,762},{2295,764},{2304,767},{2298,537},{2307,450},{2328,774},{2169,722},{2079,692},{2316,455},{2181,728},{2331,689},{2340,691},{2343,778},{2508,779},{2505,832},{2349,782},{2387,0},{2361,786},{2355,784},{2115,789},{2406,803},{2366,0},{2502,685},{2388,782},{2391,794},{2376,790},{2373,793},{2394,799},{2427,808},{2403,800},{2493,833},{2475,824},{2451,754},{2463,820},{2490,829},{2313,828},{2448,815},{2415,804},{2418,807},{2430,811},{2436,742},{2442,813},{2457,818},{2471,0},{2481,826},{2514,839},{2520,844},
{2535,840},{2511,841},{2530,788},{2522,0},{2534,0},{2540,0},{2543,0},{2529,848},{2525,0},{2516,0},{2552,0},{2561,0},{2555,0},{2558,0},{2564,0},{2549,0},{2519,0},{2583,860},{2577,858},{2547,850},{2559,848},{2537,0},{2570,0},{2588,0},{2573,0},{2615,0},{2597,0},{2567,0},{2600,0},{2603,0},{2606,0},{2541,871},{2538,863},{2609,0},{2576,0},{2591,0},{2582,0},{2579,0},{2547,850},{2571,847},{2568,846},{2553,871},{2594,0},{2580,858},{2559,843},{2562,852},{2541,846},{2514,839},{2580,858},{2585,0},{2553,863},{2586,871},{2625,874},{2526,872},{2523,873},{2616,841},{2630,0},{2754,848},{2560,881},{2742,913},{2757,843},{2763,845},{2775,924},{2676,891},{2715,851},{2718,859},{2766,862},{2781,926},{2784,893},{2682,934},{2793,852},{2557,931},{2790,843},{2817,938},{2805,933},{2760,935},{2811,936},{2823,943},{2805,942},{2829,845},{2829,838},{2847,942},{2515,943},{2563,944},{2829,838},{2841,943},{2850,942},{2829,950},{2844,943},{2745,943},{2856,943},{2533,951},{2862,839},{2787,953},{2829,955},{2518,958},{2865,961},{2880,962},{2865,963},{2877,952},{2539,964},{2901,849},{2524,966},{2554,968},{2548,967},{2568,970},{2751,973},{2915,0},{2892,846},{2892,947},{2916,859},{2578,972},{2912,0},{2913,138},{2898,841},{2904,851},{2736,967},{2919,940},{2521,990},{93,981},{2551,975},{2939,0},{2942,0},{2536,988},{2614,989},{2709,981},{2944,867},{2748,981},{2949,860},{2581,983},{2590,984},{2948,0},{2963,0},{2584,991},{2635,965},{3024,993},{2635,1009},{2632,992},{3033,993},{2632,1012},{2365,930},{3042,993},{2365,1015},{2638,974},{3051,993},{2638,1018},{2647,976},{3060,993},{2647,1021},{2698,998},{3069,993},{2698,1024},{2662,945},{3078,993},{2662,1027},{2659,977},{3087,993},{2659,1030},{2656,932},{3096,993},{2656,1033},{2650,956},{3105,993},{2650,1036},{2653,994},{3114,993},{2653,1039},{2668,978},{3123,993},{2668,1042},{2665,957},{3132,993},{2665,1045},{2686,997},{3141,993},{2686,1048},{2671,969},{3150,993},{2671,1051},{2985,898},{2770,1007},{3162,993},{2770,1055},{2979,1005},{2593,999},{3003,903},{3002,0},{2575,1002},{2728,1004},{3186,993},{2728,1063},{2731,1003},{3195,993},{2731,1066},{2734,985},{3204,993},{2734,1069},{3018,143},{2979,996},{2979,986},{2385,1010},{3048,1013},{2641,1057},{2385,1019},{3068,0},{3048,1010},{2385,1010},{3120,1034},{3048,1031},{3048,1019},{3048,1025},{2385,1031},{3084,1037},{3102,1031},{3111,1019},{3084,1040},{2385,1025},{3102,1010},{3138,1022},{3066,1052},{3066,1037},{3156,1034},{3138,1028},{3048,1052},{3156,1049},{2385,1049},{3084,1010},{3129,1049},{2385,1040},{3138,1010},{3129,1037},{3048,1043},{3111,1034},{3147,1037},{3066,1037},{2385,1034},{2385,1043},{3048,1022},{3138,1052},{3156,1010},{3066,1049},{3084,1043},{3084,1031},{3138,1037},{3138,1031},{3138,1043},{3156,1043},{2385,1040},{3066,1040},{3138,1040},{3111,1013},{3120,1049},{3120,1043},{3156,1013},{2385,1022},{3138,1049},{3120,1037},{3048,1040},{3066,1019},{3084,1019},{3084,1013},{3147,1034},{2385,1013},{2385,1028},{3102,1013},{2385,1052},{3084,1034},{3050,0},{3147,1013},{3066,1013},{3084,1022},{3138,1013},{3111,1010},{3156,1040},{3066,1034},{3084,1052},{3048,1049},{3129,1013},{3084,1049},{3129,1034},{3102,1019},{3138,1019},{3147,1010},{3066,1010},{3138,1019},{3156,1019},{3129,1025},{3120,1013},{3156,1031},{3041,0},{3156,1037},{3066,1043},{3066,1043},{3102,1025},{3129,1010},{3111,1031},{3084,1025},{3138,1025},{3147,1019},{3120,1010},{3129,1019},{3111,1025},{3039,1031},{3066,1031},{3156,1025},{3147,1031},{3030,1013},{3057,1013},{3120,1019},{3030,1031},{3129,1031},{3066,1025},{3147,1025},{2572,1053},{3561,993},{2572,1188},{3177,900},{3192,1070},{3149,0},{2692,1072},{2689,1073},{3170,0},{3120,1031},{3057,1010},{3059,0},{3057,1031},{3120,1025},{3039,1025},{3158,0},{3113,0},{3030,1025},{3104,0},{3057,1025},{3093,1025},{3095,0},{3077,0},{3178,865},{3000,1058},{2710,1060},{3636,31},{2710,1213},{2725,1061},{3645,993},{2725,1216},{3175,1060},{3086,0},{3131,0},{3194,0},{3212,0},{3203,0},{3032,0},{3215,0},{3225,1074},{3233,0},{2385,1076},{3227,0},{3048,1076},{3130,1084},{3148,1085},{3248,0},
{3260,0},{3102,1076},{3266,0},{3138,1076},{3084,1076},{3290,0},{3139,1078},{3299,0},{3293,0},{3327,1112},{3291,1096},{3317,0},{3112,1110},{3315,1102},{3121,1118},{3396,795},{3381,795},{3422,0},{3157,1136},{3419,0},{3413,0},{3386,0},{3446,0},{3276,1086},{3455,0},{3312,795},{3434,0},{3246,795},{3461,0},{3333,1099},{3156,1076},{3490,1162},{3480,1016},{3485,0},{3297,1031},{3369,1031},{3111,1076},{3380,0},{3459,1092},{3066,1076},{3468,1151},{3521,0},{3147,1076},{3528,1052},{3031,1179},{3522,1173},{3120,1076},{3545,0},{3549,1049},{3129,1076},{3542,0},{3130,1192},{3569,0},{3666,1221},{3666,1064},{3567,1056},{3121,1163},{3085,1205},{3582,1193},{3230,0},{3031,1163},{3139,1219},{3644,0},{3139,1203},{3663,1070},{3669,1217},{3201,1217},{3067,1192},{2593,1218},{3906,31},{2593,1303},{3581,0},{3585,1194},{3584,0},{3039,1076},{3030,1076},{3595,1196},{3593,0},{3597,1040},{3551,0},{3594,1076},{3057,1076},{3067,1202},{3613,1199},{3157,1203},{3612,1199},{3049,1205},{3228,1031},{3228,1025},{3623,0},{3624,1025},{3624,1076},{3094,1209},{3112,1205},{3615,1203},{3630,1058},{3571,855},{3631,1211},{3570,901},{3653,0},{3058,1224},{3121,1220},{3680,0},{3688,1080},{3682,1078},{3686,0},{3690,1227},{3700,1090},{3694,1087},{3703,1092},{3709,1237},{3722,0},{3724,1111},{3717,1242},{3721,1106},{3731,0},{3734,0},{3739,1117},{3743,0},{3736,1121},{3379,1248},{3351,1246},{3450,1255},{3249,1228},{3423,1254},{3759,1251},{3773,0},{3693,1034},{3775,1156},{3781,1259},{3711,1088},{3787,1092},{3783,1025},{3791,0},{3802,1265},{3777,1144},{3800,0},{3809,0},{3818,0},{3824,0},{3826,1174},{3833,0},{3835,1180},{3844,1280},{3839,0},{3848,0},{3914,0},{4007,0},{3579,1286},{3864,1299},{3921,1195},{3900,1298},{3999,1223},{3905,0},{3168,1286},{3861,1300},{3999,1067},{3864,1300},{3876,1289},{3956,0},{3884,0},{3573,1299},{3887,0},{4004,0},{3857,0},{3915,1286},{3918,1305},{3921,1193},{3915,1307},{3918,1193},{3897,1298},{3900,1191},{3861,1299},{3926,0},{3929,0},{3934,1310},{3840,1181},{3924,1160},{3938,0},{3927,1176},{3940,1314},{3942,1183},{3947,0},{3950,0},{3959,0},{3879,1031},{3962,0},{3893,0},{3875,0},{3965,0},{2385,1320},{3977,0},{3980,0},{3983,0},{3986,0},{3987,1000},{3997,866},{2701,1331},{4293,31},{2701,1432},{3888,1304},{3996,902},{3879,1019},{3944,0},{3582,1305},{3872,0},{4002,1294},{3978,1025},{3582,1305},{3237,1336},{4018,1083},{4012,1081},{3697,1340},{4013,0},{4027,1238},{4030,1095},{4024,1235},{4033,1113},{4043,0},{4046,0},{4031,0},{3237,1338},{3318,1345},{4060,1135},{4047,1350},{3393,1352},{4053,1052},{4034,0},{4025,0},{4054,1149},{4040,0},{4041,1348},{4020,1232},{4063,1142},{3769,1356},{4067,0},{4076,0},{4079,0},{4073,0},{4068,1148},{4061,0},{4091,0},{4087,1132},{3714,1342},{4083,1031},{4097,0},{4094,0},{4105,1168},{4109,0},{4088,0},{3426,1354},{4113,1271},{4123,1276},{3504,1368},{4125,1267},{4124,0},{4129,1182},{4132,1184},{3546,1376},{4137,1284},{3870,1398},{4146,1384},{4170,1288},{4203,1388},{3861,1386},{3903,1393},{4143,1285},{4176,1391},{4251,1318},{4179,1387},{4170,1191},{3876,1388},{4326,1388},{4263,1291},{4152,1193},{4005,1439},{4194,1439},{4200,1189},{4170,1298},{4206,1388},{3864,1386},{4176,1385},{4152,1286},{4197,1306},{4203,1289},{4146,1306},{4170,1287},{4206,1289},{4314,1289},{4158,1191},{4158,1298},{4209,1189},{4176,1383},{4133,0},{4176,1405},{4176,1406},{4176,1389},{4222,1160},{4176,1395},{4225,1176},{4229,0},{4232,0},{4235,0},{4176,1404},{4236,1311},{4241,0},{4243,1201},{4247,0},{4244,0},{3948,1387},{3619,1419},{4257,1206},{4260,843},{4263,1422},{3891,1422},{3873,1396},{2385,1420},{4259,0},{3882,1397},{4287,1330},{4288,1330},{4301,0},{4306,868},{3643,1380},{4305,904},{4303,1433},{4310,0},{3915,1384},{4015,1443},{4337,0},{4333,1091},{3243,1447},{4339,1100},{4349,0},{4351,1103},{4336,1108},{4345,1101},{4354,1116},{4359,1452},{4367,0},{4370,0},{4352,0},{4362,1052},{4376,0},{3757,1459},{4380,1028},{4372,1112},{4334,0},{3705,1462},{4400,0},{4402,1157},{4397,0},{4344,1049},{4383,1052},{4373,0},{4391,0},{3405,1474},{4355,0},{4421,0},{4410,1471},{3300,1446},
{4433,0},{4429,1264},{4406,0},{4401,1022},{4436,0},{4377,1252},{4430,0},{4444,1172},{4454,0},{3396,1483},{4457,0},{4443,1049},{4459,1177},{4463,0},{4467,1049},{4460,0},{4466,0},{4471,1283},{4470,1043},{4474,1186},{4478,0},{4481,0},{4674,907},{4149,1495},{4275,1551},{4683,1189},{4680,1437},{4491,1389},{4563,1498},{4551,1498},{4491,1504},{4515,1395},{4518,1395},{4524,1189},{4527,1285},{4551,1512},{4539,1514},{4548,1305},{4554,1520},{4557,1391},{4551,1520},{4557,1389},{4515,1383},{4515,1389},{4563,1404},{4491,1404},{4533,1514},{4554,1496},{4560,1495},{4551,1391},{4563,1389},{4575,1523},{4505,0},{4533,1389},{4533,1520},{4563,1523},{4518,1512},{4518,1504},{4215,1495},{4563,1383},{4167,1495},{4539,1523},{4539,1385},{4185,1495},{4554,1405},{4518,1523},{4566,1498},{4566,1385},{4542,1495},{4176,1524},{4551,1406},{4557,1496},{4575,1405},{4575,1504},{4539,1395},{4533,1524},{4554,1514},{4557,1504},{4551,1523},{4557,1404},{4491,1512},{4518,1520},{4554,1391},{4575,1383},{4554,1523},{4554,1524},{4575,1391},{4515,1496},{4533,1406},{4554,1385},{4575,1514},{4563,1520},{4176,1498},{4551,1504},{4491,1496},{4536,1495},{4563,1514},{4551,1395},{4539,1383},{4563,1524},{4533,1385},{4539,1406},{4554,1504},{4533,1395},{4176,1523},{4563,1405},{4533,1498},{4569,1495},{4176,1504},{4533,1512},{4512,1513},{4551,1389},{4176,1520},{4551,1404},{4563,1395},{4491,1498},{4533,1391},{4563,1406},{4575,1395},{4557,1524},{4557,1523},{4566,1524},{4518,1406},{4518,1391},{4575,1404},{4575,1406},{4575,1389},{4575,1512},{4557,1406},{4518,1405},{4557,1405},{4515,1523},{4518,1496},{4176,1514},{4566,1514},{4515,1524},{4515,1512},{4515,1406},{4515,1404},{4515,1520},{4515,1405},{4176,1512},{4554,1498},{4575,1524},{4554,1512},{4539,1498},{4554,1383},{4485,1404},{4533,1383},{4491,1383},{4491,1523},{4566,1395},{4218,1495},{4488,1495},{4557,1383},{4533,1405},{4563,1504},{4533,1496},{4563,1496},{4554,1389},{4575,1498},{4563,1512},{4554,1395},{4566,1520},{4551,1524},{4566,1523},{4551,1514},{4491,1406},{4566,1496},{4566,1404},{4491,1405},{4551,1383},{4566,1504},{4566,1389},{4566,1383},{4155,1495},{4547,0},{4176,1496},{4539,1389},{4494,1495},{4539,1404},{4586,0},{4539,1520},{4580,0},{4491,1391},{4539,1512},{4589,0},{4539,1405},{4566,1405},{4566,1406},{4518,1385},{4515,1498},{4557,1498},{4575,1520},{4557,1395},{4575,1496},{4581,1043},{4551,1405},{4557,1514},{4518,1389},{4512,1495},{4575,1385},{4557,1520},{4566,1512},{4491,1520},{4557,1385},{4491,1385},{4515,1504},{4557,1512},{4592,0},{4598,0},{4515,1391},{4518,1524},{4488,1513},{4533,1404},{4475,0},{4595,0},{4554,1406},{4554,1404},{4563,1385},{4563,1391},{4173,1495},{4601,0},{4515,1514},{4518,1383},{4551,1496},{4539,1391},{4566,1391},{4594,1534},{4491,1524},{4551,1385},{4613,0},{4600,1200},{4533,1523},{4491,1514},{4616,0},{4622,0},{4248,1541},{4499,0},{4511,0},{3603,1542},{4629,1318},{4484,0},{4532,0},{4637,0},{4638,876},{4643,0},{4646,0},{4521,1295},{4673,0},{4291,1553},{2704,1554},{5538,31},{2704,1847},{4302,1555},{4659,1430},{4675,869},{4491,1395},{4518,1404},{4539,1524},{4533,1504},{4515,1385},{4518,1498},{4518,1514},{4572,1495},{4687,1089},{4693,1098},{3282,1563},{4697,0},{4699,1114},{4039,1567},{4711,1122},{4708,1115},{4705,1124},{3267,1562},{4714,1125},{4694,0},{4725,1046},{4718,0},{4719,1336},{4728,1034},{4709,0},{4706,0},{4392,1567},{3366,1570},{4742,0},{3273,1581},{4739,0},{4735,1152},{4715,0},{4753,1159},{3342,1566},{3336,1588},{4755,1037},{4748,0},{4758,1043},{4405,1589},{4749,1472},{4761,1010},{4776,1367},{4772,0},{4784,0},{3348,1591},{4794,1010},{4110,1599},{3456,1578},{4791,1463},{4789,1169},{4790,0},{3477,1584},{4802,0},{4807,1273},{3792,1601},{4814,0},{4818,1019},{4822,1178},{3819,1602},{4823,0},{4827,1076},{3531,1610},{4837,1185},{4839,1076},{4844,0},{3555,1612},{4856,0},{5567,0},{4884,1496},{4860,1385},{4853,0},{4883,0},{5348,0},{4155,1632},{5570,0},{4865,0},{5545,1849},{4323,1619},{5579,0},{4863,1394},{5573,0},{4860,1504},{4536,1632},{4931,0},{4860,1404},{4928,0},{4916,0},{4860,1514},{4907,0},{4149,1632},{4884,1504},
{4884,1514},{4934,0},{4215,1632},{4860,1405},{4860,1512},{4922,0},{4901,0},{4925,0},{4904,0},{4860,1383},{4884,1385},{4910,0},{5576,0},{4860,1389},{4884,1395},{4913,0},{4919,0},{5039,0},{4946,0},{5042,0},{4884,1405},{4991,0},{4494,1632},{5009,0},{4997,0},{4884,1520},{4874,0},{4884,1389},{4218,1632},{5015,0},{4860,1496},{4167,1632},{4964,0},{4884,1512},{4952,0},{4937,0},{4979,0},{4973,0},{5018,0},{5024,0},{5561,0},{5045,0},{4940,0},{4949,0},{5036,0},{5000,0},{5003,0},{5006,0},{4985,0},{5048,0},{4958,0},{4988,0},{5012,0},{4560,1632},{5033,0},{5030,0},{4512,1632},{4982,0},{4955,0},{4961,0},{4976,0},{4884,1523},{5027,0},{4884,1498},{4569,1632},{5021,0},{4994,0},{4884,1524},{4967,0},{4970,0},{5051,0},{5075,0},{5054,0},{5135,0},{5060,0},{4860,1391},{5057,0},{5231,0},{5102,0},{5129,0},{5225,0},{5093,0},{4860,1520},{5138,0},{5216,0},{5219,0},{5087,0},{5213,0},{5114,0},{5084,0},{5210,0},{5186,0},{4895,0},{4871,0},{5150,0},{5237,0},{5105,0},{5096,0},{5189,0},{5228,0},{5564,0},{4868,0},{4877,0},{4880,0},{4212,1632},{5099,0},{5108,0},{4173,1632},{4185,1632},{5117,0},{5123,0},{5063,0},{5111,0},{5072,0},{5240,0},{5090,0},{4884,1406},{5234,0},{5066,0},{5132,0},{5081,0},{5120,0},{5078,0},{5069,0},{5126,0},{5156,0},{5162,0},{5207,0},{5198,0},{5246,0},{5243,0},{5180,0},{5159,0},{5195,0},{5177,0},{5171,0},{5249,0},{5147,0},{5201,0},{5222,0},{5204,0},{5192,0},{5153,0},{5165,0},{4884,1391},{5174,0},{5141,0},{5144,0},{5168,0},{5183,0},{5354,0},{5339,0},{5372,0},{5351,0},{5390,0},{5333,0},{4542,1632},{5378,0},{5324,0},{5381,0},{5366,0},{5360,0},{4892,0},{5318,0},{5282,0},{4488,1632},{5285,0},{5357,0},{5369,0},{5306,0},{5303,0},{5387,0},{5309,0},{5312,0},{5276,0},{5297,0},{5300,0},{5294,0},{5384,0},{5291,0},{5393,0},{5288,0},{5279,0},{5255,0},{5363,0},{5252,0},{5267,0},{5264,0},{5270,0},{5373,1031},{5342,0},{5327,0},{5321,0},{5258,0},{5273,0},{5261,0},{5444,0},{5441,0},{5433,1409},{5429,0},{5411,0},{4860,1395},{5402,0},{5408,0},{3558,1810},{5420,0},{5438,0},{5423,0},{4572,1632},{5426,0},{5396,0},{5399,0},{5405,0},{5459,0},{5451,1040},{5558,0},{5456,0},{5468,0},{5447,0},{5465,0},{5462,0},{5450,0},{5477,0},{5474,0},{5415,1826},{5486,0},{5482,1538},{5483,0},{4860,1523},{4884,1404},{5489,0},{5498,0},{5507,0},{5499,1834},{5511,1838},{4269,1839},{5523,1842},{5328,1778},{4859,0},{4857,1426},{3888,1844},{5343,1805},{2707,1845},{6558,31},{2707,2187},{5546,0},{4669,1850},{5550,1556},{4851,822},{5532,51},{4860,1498},{4884,1383},{4860,1406},{4860,1524},{5581,1093},{5588,0},{5584,1104},{5593,1120},{3279,1860},{5605,1133},{5597,0},{5599,1127},{5602,1129},{5609,0},{5611,1143},{5603,0},{5595,1574},{5606,0},{5613,1052},{5619,1574},{3381,1866},{4374,1865},{5616,1010},{5585,0},{5627,0},{3372,1877},{5652,1049},{4407,1882},{5650,1164},{5612,0},{5639,0},{5636,0},{3345,1876},{5645,0},{4090,1880},{5678,0},{5663,0},{4425,1880},{3360,1864},{5664,1593},{5624,0},{5681,0},{5655,1037},{5672,0},{5675,0},{5660,0},{5649,1037},{5656,1270},{5684,0},{5693,0},{5702,0},{5714,0},{5707,1171},{5709,1037},{5696,0},{5705,0},{5715,1352},{5699,0},{5708,0},{4119,1908},{5719,1175},{5723,0},{5718,1037},{5729,0},{5731,1488},{5735,0},{5741,0},{5736,1052},{5732,0},{5744,0},{5750,0},{5756,0},{4849,1917},{5775,1919},{6423,1992},{6462,2094},{6587,0},{6486,2150},{2611,2192},{6552,1929},{5784,1394},{5772,1933},{5904,2126},{6584,0},{5313,2159},{4320,1928},{6111,2036},{5807,0},{5804,0},{5840,0},{5873,0},{5831,0},{5846,0},{5864,0},{5765,0},{5828,0},{5813,0},{5843,0},{5822,0},{5876,0},{5861,0},{5814,1939},{5877,1956},{5853,1955},{5823,1936},{5850,1647},{5835,1949},{5834,0},{5780,0},{6030,2002},{5988,1989},{6035,0},{5883,2006},{5928,1970},{5894,0},{6023,0},{5970,1981},{5964,2003},{5955,2009},{6017,0},{5961,1992},{5946,1936},{5985,1984},{5949,1993},{5958,1994},{5997,1993},{5924,0},{5937,1924},{5909,0},{6002,0},{5915,0},{5993,0},{6590,0},{5933,0},{5927,0},{5918,0},{6026,0},{5900,0},{6593,0},{6039,2012},{6048,2042},{6087,2058},{6080,0},{6090,2066},{6146,0},{6261,2017},{6141,2036},{6090,2041},{6158,0},{6192,2071},
{6155,0},{6258,2057},{6054,2074},{6063,1981},{6042,2056},{6084,2082},{6279,2089},{6075,1924},{6174,2045},{6045,2068},{5901,2077},{5940,2067},{6249,1931},{5313,2059},{4941,2066},{6060,1992},{6123,1982},{6138,2091},{6165,2039},{6111,1960},{6182,0},{6243,2061},{6270,2065},{6069,2073},{6075,2070},{6159,1993},{5768,0},{6228,1776},{6186,2050},{6120,2049},{6059,0},{6266,0},{6291,2135},{6354,2002},{6282,2120},{6354,2111},{6288,1805},{6414,2115},{4848,1917},{5415,1950},{6369,2102},{6401,0},{6312,1920},{6363,2134},{5955,2130},{6135,1984},{6165,1925},{6240,2122},{6252,2117},{5889,2082},{6384,2089},{6324,2099},{6312,2044},{5910,1983},{6411,2136},{6105,2112},{5889,2069},{6378,2045},{6027,2047},{6213,2082},{5919,1920},{5940,1973},{6381,2018},{6162,2053},{6189,2086},{6027,2091},{6302,0},{5886,2043},{6342,2124},{6375,2044},{6099,2039},{6060,1956},{6329,0},{6270,2103},{5910,2110},{5919,2115},{6393,2113},{5880,2151},{6381,2128},{6228,1949},{6366,2013},{6276,2079},{6048,2044},{4941,2006},{5973,2103},{6195,2149},{6458,0},{6428,0},{6429,1961},{6420,1927},{6390,2083},{6291,2058},{6369,2156},{6417,2059},{6381,2010},{6417,2083},{6294,2129},{5850,1941},{6288,1647},{6414,2059},{6446,0},{5958,2024},{6303,1919},{5814,2123},{6459,2119},{6381,1995},{6437,0},{6129,2074},{6450,1962},{6429,1804},{6396,2084},{6120,2069},{6255,2003},{6324,2155},{6114,2151},{5934,2036},{6084,2062},{5961,2041},{5943,2013},{6297,2061},{6114,2074},{6471,1919},{6396,1999},{6198,1919},{6477,1984},{6192,2159},{6486,2122},{6489,1993},{6414,2149},{5940,2101},{6465,2112},{5343,1945},{6309,1965},{5847,2095},{6240,1919},{6294,1981},{5850,2155},{6282,2065},{6177,2160},{6273,2082},{6438,2072},{6447,2082},{6420,1999},{5982,1936},{5781,1939},{6474,1025},{6423,1776},{6393,2164},{6363,2136},{6060,1959},{5814,2141},{6162,2089},{5817,2047},{5949,2165},{5853,2067},{6477,2117},{6288,1965},{5988,2118},{5901,2102},{6432,2012},{6321,2165},{5985,2093},{5313,2106},{5889,2030},{5976,2167},{5343,2057},{5412,2084},{5940,2085},{5853,2137},{5823,1956},{6060,1826},{6216,2036},{6318,1983},{6291,2009},{6483,1978},{5853,2056},{5415,2165},{6414,1920},{6498,2045},{6366,2002},{6483,2081},{6518,0},{6081,2034},{5883,2045},{6504,2134},{6051,1996},{6096,1982},{5901,2111},{6159,2110},{6360,2157},{6513,1830},{5835,2039},{6132,2073},{6261,2094},{6072,1984},{6114,2086},{6261,2035},{6075,1956},{5988,2116},{6521,0},{6099,1996},{6159,2073},{6492,2146},{6342,2068},{6333,2083},{6309,2117},{6486,2022},{6051,2054},{5760,2085},{5880,2169},{5928,2086},{6066,2147},{6357,1927},{6066,1927},{6297,2111},{5328,2067},{6321,2125},{6270,2084},{6429,1973},{6282,2024},{5934,1999},{6441,2071},{6387,2063},{5880,2129},{6111,2004},{6354,2086},{5994,2105},{6369,2116},{6447,2117},{5853,1999},{5889,2136},{5313,2160},{6168,2111},{6054,2083},{5958,2044},{6375,1965},{5889,2069},{6051,2064},{6147,2091},{6270,2113},{5940,2001},{5961,2065},{6447,1931},{6381,2027},{6402,2165},{6501,2053},{5901,2136},{6369,2017},{6483,1960},{6369,2006},{6093,2092},{6048,2089},{6198,1945},{5955,2066},{6261,2034},{5988,2111},{6507,2075},{5901,2061},{6288,2163},{6048,2042},{6069,2099},{5994,2018},{6417,1992},{6411,2124},{6384,2013},{5412,2003},{6378,2093},{6489,1956},{6501,1989},{6411,2004},{6372,2128},{6390,1924},{6417,2028},{6525,1317},{6312,2053},{6357,2125},{6060,1924},{6207,2157},{5967,2064},{6414,1993},{5865,2165},{6159,2120},{6147,2122},{6096,2167},{6045,1970},{6246,2036},{6084,2032},{6141,2073},{6162,2110},{6339,2160},{6420,1987},{5964,2062},{6075,2155},{5958,2045},{5928,1988},{6390,2110},{6258,2111},{5949,2115},{5988,2122},{6117,2002},{6276,1647},{5328,2080},{6522,2102},{6162,2073},{6069,1970},{6405,2047},{6333,2115},{6042,2144},{6390,1647},{6492,2061},{6099,2034},{5934,2150},{6093,2153},{6249,2036},{6420,2136},{6081,2001},{6120,2066},{5928,2075},{6522,2153},{6450,2159},{6526,1317},{5928,1951},{6165,1983},{6063,2119},{6123,2022},{6533,0},{6339,2013},{6348,2075},{5883,1936},{5853,2028},{6486,1968},{6489,2095},{6030,2078},{5934,2174},{4941,2013},{6096,2128},{6165,2114},
{6261,2070},{6333,2078},{6060,2070},{6363,2064},{5985,1939},{6294,2056},{6402,1952},{6312,1925},{6054,2093},{5901,1968},{5958,1805},{6285,1941},{6342,2151},{6030,2146},{6054,1991},{5940,2151},{6054,2067},{6420,2061},{6285,2012},{6450,2065},{6288,2074},{5988,2071},{6507,2092},{6405,2067},{6045,2101},{6042,1950},{6165,2159},{6231,1959},{6093,2102},{6459,2006},{5313,2113},{6006,2157},{5946,2157},{6213,2149},{6207,2086},{6492,2102},{6066,2069},{5997,2122},{6483,2127},{6213,2093},{5850,2073},{6536,0},{6096,1778},{6207,2057},{6288,2129},{6084,2131},{6402,1925},{5988,2001},{6459,1933},{5964,1981},{6417,2054},{6483,2077},{5880,2157},{5994,2166},{6210,2101},{5886,2082},{6438,2149},{6114,2006},{6423,2107},{6087,2020},{5988,2075},{5757,1965},{6486,2081},{6084,2003},{6018,2101},{6291,1939},{6048,1978},{6507,2167},{5940,2128},{5847,1955},{6120,2159},{6288,2091},{6174,2081},{5343,1994},{6465,1924},{6465,2050},{5343,2090},{6408,2086},{6539,0},{6099,1967},{6210,2071},{6204,2075},{6111,1951},{6165,1931},{6087,1938},{6105,2155},{6063,1778},{6411,2116},{6468,2122},{6084,1804},{5997,2151},{5973,1995},{5937,2046},{6405,2156},{5781,2002},{6542,0},{6414,1933},{5997,1965},{6087,1999},{5313,2061},{6102,2118},{6030,2057},{6051,1962},{5934,2010},{6090,2053},{6159,2045},{5904,1982},{6114,2099},{6054,1984},{6396,2122},{5901,1983},{5961,2089},{6354,2149},{5853,2102},{5970,2116},{6411,2118},{6369,1956},{6048,2091},{4941,2107},{5478,2035},{6105,2046},{6387,2103},{6417,2132},{6165,2136},{6432,2149},{6102,1952},{6072,2016},{6126,2085},{5412,2042},{6342,2113},{6222,2073},{6393,2024},{6048,1995},{6339,2083},{5883,2104},{6417,2036},{6093,2135},{5958,2066},{6204,1952},{6174,2070},{5334,2036},{6312,2089},{6375,1959},{6165,2056},{6429,2006},{6429,2097},{6066,2021},{5904,2001},{6204,2001},{6087,2101},{5967,2159},{6054,2090},{6486,2057},{5478,1936},{5937,2024},{6375,1919},{6090,2035},{6255,1959},{6186,2077},{6018,2082},{5415,1999},{6147,2136},{6450,2084},{6192,2084},{6189,1999},{6348,2113},{5964,2116},{5937,2130},{6414,2076},{6486,2101},{6168,2146},{5994,2169},{6318,2009},{6204,2167},{5910,1994},{6282,2135},{6507,2124},{6522,2115},{6408,2156},{5343,2127},{6282,2006},{6069,1976},{5886,2151},{6045,1990},{5928,2105},{6408,2083},{6162,1955},{6390,2050},{5886,1968},{5934,2082},{6411,2147},{6174,2073},{5835,2078},{6360,1941},{5976,1991},{5970,1989},{6288,1949},{5478,1941},{6441,2105},{6225,1931},{5883,2150},{6084,2067},{5904,2065},{5910,2001},{6219,1965},{6498,2075},{5415,2101},{6462,2092},{5817,2074},{6054,1967},{5775,1956},{6357,2122},{5964,2071},{5973,2043},{6489,2045},{6060,2120},{5415,2022},{6393,2061},{6201,2001},{6483,2103},{5328,1981},{6273,2101},{6093,2041},{5883,1920},{5886,1983},{6390,2157},{5949,2079},{6276,2072},{5313,2049},{6261,1986},{5955,1936},{5919,1778},{6228,2002},{5850,2107},{6081,1970},{6432,2057},{6468,2067},{5919,1941},{6099,1919},{6462,2135},{5910,1931},{5904,2144},{5955,2012},{6546,1025},{5865,2044},{3627,2182},{6084,2013},{6369,1949},{6123,2081},{6084,2079},{6363,2126},{6162,1826},{6351,2115},{6111,2059},{6363,2161},{6216,1933},{6075,2029},{5988,2164},{6420,2141},{6423,1924},{5889,1994},{5835,2043},{5964,2106},{6075,2074},{6225,1994},{6432,1955},{6177,1983},{6030,2135},{6387,2163},{6018,2119},{5955,1950},{5940,2044},{6030,1936},{6315,2004},{6099,2056},{6324,1924},{5835,1956},{6276,2126},{6069,2174},{6408,2147},{6321,1826},{5964,2096},{6096,2072},{6462,2099},{5856,2160},{6402,1919},{6069,1989},{6411,1931},{6126,2153},{6486,2137},{6384,2167},{5994,2144},{6360,2112},{5997,2075},{6045,2166},{5814,2097},{6042,1781},{6501,2160},{6294,2021},{6429,2146},{6522,2159},{6075,2078},{6042,2032},{6477,2071},{6522,2075},{6450,1963},{6075,2101},{5313,1993},{6018,2155},{5973,2062},{6405,2081},{6093,2116},{6111,1993},{5961,2090},{5919,2077},{6375,1924},{5412,2157},{6357,2078},{6228,2081},{6270,1982},{6009,2074},{6051,2079},{6414,2124},{6429,2035},{6081,2061},{6174,2024},{5847,2157},{6012,2102},{5928,1990},{6051,2083},{6120,2166},{6042,2129},{6429,1920},{6390,1941},
{6063,1927},{5979,2122},{6387,2107},{6342,1967},{6378,2110},{6339,2156},{6138,1919},{6162,2044},{5886,2166},{5775,2165},{6495,2043},{6369,2121},{6453,1984},{6252,2082},{5940,1998},{5958,2080},{6132,1919},{6351,2004},{6237,2115},{5943,1927},{6090,1994},{5997,1993},{6186,2078},{5964,1927},{5478,2095},{6270,2057},{6075,2087},{6486,2037},{6093,2098},{5940,2143},{6081,1991},{5853,2113},{6177,2134},{5943,2063},{6195,1925},{5967,2001},{6030,2072},{6240,1955},{6366,1927},{6393,1776},{6111,1983},{6285,2101},{5955,2101},{6342,1968},{5814,2076},{6117,2074},{6207,2165},{6294,2137},{5850,2012},{5814,2081},{5856,2146},{6297,2105},{6321,2153},{6393,2147},{6330,1956},{6183,2075},{6354,2057},{6093,2083},{6486,2080},{5883,1991},{6087,2006},{6147,2113},{6045,2174},{6462,1999},{6378,2160},{6270,2069},{6432,2003},{5886,2002},{5313,2111},{5478,2050},{5985,2080},{5781,2071},{5847,2039},{6420,2090},{5328,2086},{6090,2134},{5970,2069},{5934,1981},{6177,2093},{6105,2163},{6438,2001},{5928,1989},{6369,2167},{6567,1849},{6566,0},{2713,2190},{9300,31},{2713,3101},{6111,1804},{6093,2123},{6462,2071},{6294,2084},{6342,2106},{6574,1851},{6162,2101},{6420,2093},{6195,2043},{6138,2078},{5770,822},{6573,1851},{6369,1931},{6273,1965},{5798,0},{5334,2085},{5955,2120},{6579,1559},{6135,2047},{6552,1559},{6595,1107},{5589,2199},{6601,1123},{6604,1130},{6619,1250},{6608,0},{3321,2198},{6612,1574},{6616,1146},{6610,1147},{6627,1046},{6612,1577},{6602,0},{6620,0},{6636,1049},{3438,2205},{6633,1028},{6630,1350},{6626,0},{6611,0},{6603,1037},{6650,0},{6647,0},{3312,2217},{6641,0},{6644,0},{6654,1360},{6680,0},{6686,0},{6668,0},{6659,0},{3429,2223},{6660,1040},{6625,1167},{6665,0},{6717,1896},{4437,2222},{6720,1052},{4440,2235},{6698,0},{6695,0},{5685,2230},{4785,2237},{6708,1076},{6663,2228},{6724,1170},{6741,1031},{3510,2241},{6740,0},{4809,2248},{6739,1485},{3513,2252},{6763,2253},{6761,0},{6768,1025},{4824,2257},{6783,1025},{6786,1611},{4134,2260},{4845,2264},{4941,2370},{6318,2302},{9063,2044},{5760,2270},{6864,1970},{6825,1956},{7629,2332},{8774,0},{8780,0},{9342,3113},{6816,1923},{6843,1952},{5880,2282},{6888,1965},{5883,2287},{6864,2001},{6903,1994},{5886,2289},{6894,2292},{6891,2004},{5994,2290},{6858,1967},{6900,2294},{5934,2293},{5940,2285},{5973,2291},{6897,1973},{5904,2302},{5889,2283},{6852,2003},{6948,2032},{6963,2319},{5937,2285},{6996,2320},{6879,2079},{6969,1965},{6912,2310},{6981,2039},{5343,2325},{6810,1959},{6942,2080},{6093,2324},{6918,2063},{6999,2024},{6909,2084},{6978,2012},{6162,2328},{6966,2327},{6915,2332},{6954,2072},{6099,2302},{6993,2044},{6102,2277},{6927,2043},{6810,2047},{6966,2283},{6972,2063},{5334,2330},{6978,2075},{6105,2329},{6966,2069},{6939,2081},{6903,2078},{7065,2032},{6810,2117},{6993,2076},{7119,2001},{6072,2326},{7125,2283},{7056,2054},{7044,1968},{6981,2119},{7116,2101},{5817,2342},{6294,2283},{7092,2324},{7110,2374},{6075,2344},{6321,2320},{7089,2095},{7098,2037},{6396,2336},{7086,2106},{7077,2033},{7062,2116},{7020,2102},{7104,2036},{6066,2338},{7095,1989},{7002,2097},{7092,2079},{7047,2347},{7038,2105},{7083,2337},{7257,2107},{7197,2398},{6462,2305},{7248,1968},{7227,2031},{4605,2385},{6927,2289},{7236,2324},{5334,2332},{6855,1925},{7131,2059},{7245,2420},{7140,2030},{7239,2411},{7251,2138},{5895,2342},{7173,2139},{7218,2405},{6993,2410},{6975,2305},{7176,2397},{6969,1939},{7185,2155},{7148,0},{7200,2387},{7224,2418},{7182,2149},{7230,2323},{7167,1925},{7188,2156},{7164,2402},{5985,2289},{7110,2134},{7221,1952},{7284,1998},{7092,2046},{6990,2309},{7269,2065},{7092,2081},{7353,2448},{6990,2344},{6231,2329},{7311,1951},{7326,2453},{7290,1952},{7314,2165},{7305,2161},{6267,2342},{7317,2017},{7266,2336},{6063,2344},{7296,2290},{7350,2078},{5343,2293},{6132,2329},{7341,2096},{6150,2338},{5883,2293},{4608,2431},{7287,2126},{7356,2129},{6924,2103},{6915,2135},{6993,2010},{7308,2164},{5823,2338},{7320,2132},{7122,2065},{7455,2061},{7464,1776},{7401,2495},{7398,2156},{7458,2325},{7389,1990},{6081,2325},{6924,2144},{7494,2491},
{6339,2302},{6939,2110},{7206,2490},{7443,2328},{7425,1987},{7428,2093},{7437,2154},{7469,0},{6858,1919},{7383,2496},{6903,2165},{7431,2155},{6420,2289},{7230,2050},{6090,2323},{7479,2460},{7377,2462},{7452,2147},{6306,2342},{7128,2458},{6858,2282},{7449,2386},{6324,2283},{7422,2095},{6843,2326},{6081,2288},{7407,2455},{7410,2468},{6930,2453},{7413,2482},{7434,2323},{7416,2473},{6924,2131},{7362,2128},{6063,2327},{7392,2014},{7371,2465},{7536,2147},{7533,2063},{7530,2128},{5415,2338},{7551,2103},{6468,2344},{7515,2078},{7527,2115},{6087,2281},{5961,2313},{6855,2012},{7569,2064},{7554,1998},{7503,2502},{7521,1991},{6213,2344},{6873,2057},{7509,2118},{7557,1771},{6168,2342},{7542,1924},{7539,2125},{5865,2328},{7599,2532},{7248,2071},{7620,2033},{7578,2174},{7641,1990},{7290,2059},{7611,2536},{7581,1776},{7605,2021},{7644,2543},{6810,1952},{6870,2284},{7500,2329},{6810,2078},{7590,1988},{6129,2289},{6978,2157},{7632,1990},{7614,1980},{6147,2416},{6990,2291},{6924,2004},{6141,2344},{7604,0},{7704,2571},{7656,2553},{7122,1919},{6363,2288},{7629,2309},{7230,2085},{7689,2562},{7695,1976},{5973,2450},{6294,2305},{6993,2069},{6069,2288},{7698,2135},{6831,2068},{7692,2040},{7674,2557},{7701,2049},{7680,2559},{7092,2174},{7710,1984},{7647,1986},{6972,1941},{6972,2163},{7728,2575},{7368,2046},{6882,2115},{6993,1936},{7734,1989},{7737,2038},{6927,2301},{6903,2282},{7089,2298},{6060,2450},{6072,2294},{6831,2057},{7755,2543},{5964,2322},{7431,1979},{7719,2027},{7566,2112},{6870,2370},{7749,2375},{7743,2164},{6990,2156},{7776,2002},{7782,1771},{6387,2313},{7785,2003},{6411,2375},{6393,2416},{7806,2153},{7803,2604},{7710,1826},{7629,2159},{6288,2286},{7824,2102},{7839,2589},{7230,2157},{7797,2600},{7821,2068},{6126,2289},{6975,2286},{6915,2164},{7785,2118},{7461,2484},{7788,2144},{7791,2598},{7779,2034},{6987,2338},{7290,2416},{6063,2286},{7770,2591},{6075,2370},{7764,1927},{6864,2112},{7827,2610},{7890,2124},{7893,2632},{5961,2282},{6852,2004},{7853,0},{6363,2302},{6228,2410},{7230,2069},{7248,2108},{7854,1976},{6849,2342},{6876,2120},{7290,2336},{6924,2150},{7863,2049},{6873,2036},{7575,2284},{7857,2039},{7875,2331},{7887,2071},{6087,2294},{6294,2325},{7368,1771},{6876,2328},{7974,2099},{7968,2076},{7929,2009},{6846,2043},{7911,2080},{7290,2064},{7545,2165},{6981,2151},{7956,1949},{7908,2309},{7953,2322},{6903,2283},{7926,2099},{7902,1771},{7950,2068},{7920,2277},{7971,2115},{7914,2034},{7083,2035},{5775,2289},{7941,2042},{7947,2648},{7935,2646},{6993,2038},{6915,1968},{7917,1961},{5415,2287},{6354,2282},{7932,2633},{6390,2292},{7089,2295},{7986,2059},{6861,2074},{6381,2291},{5994,2330},{7413,2678},{8025,2370},{8031,2151},{8004,2013},{6099,2287},{8019,2174},{8046,2160},{6123,2288},{8037,2056},{6486,2327},{7842,2153},{4941,2323},{8010,2136},{8022,2680},{5889,2282},{8052,1967},{8085,2003},{8049,2328},{8055,2144},{6876,2135},{8088,2069},{6846,2450},{8082,2665},{6903,2370},{8073,2047},{6228,2293},{7161,2268},{6972,2294},{6174,2450},{6969,2013},{8061,2686},{7449,2643},{5919,2344},{6885,2401},{6393,2336},{5937,2281},{5775,2329},{8079,2167},{8124,1992},{7629,2105},{8163,1778},{8160,1990},{6975,2270},{8151,2716},{8130,1776},{8118,1963},{6807,1984},{8112,2702},{8142,1950},{6486,2323},{8139,2034},{8091,2040},{8115,2712},{6978,2050},{6975,1993},{8184,2416},{6960,2125},{7515,2712},{8193,2305},{5823,2329},{6387,2293},{5412,2288},{8199,2416},{8205,1920},{6342,2332},{7050,2292},{7647,2333},{7125,2160},{8187,2338},{6873,2078},{8031,2705},{8175,2726},{6036,2289},{8211,2166},{7629,2036},{6990,2128},{6198,2342},{8265,2753},{8229,2174},{8220,2746},{8250,2149},{7185,2549},{6030,2284},{7230,2338},{5835,2342},{7500,2009},{8262,2751},{8247,2305},{6045,2286},{6042,2313},{6981,2166},{6960,1924},{8226,1949},{6993,2063},{8298,2119},{8301,2004},{8319,2107},{8313,2774},{8268,2757},{6831,2053},{6810,2072},{8278,1322},{6114,2323},{8310,2768},{8289,2764},{8283,2159},{7710,1956},{6924,2137},{8295,1973},{7839,2777},{8094,2449},{7248,2117},{8349,1959},{6813,2275},{8337,1989},
{8352,2079},{8355,1949},{7365,1986},{8325,2364},{8388,2123},{8370,2001},{8373,2543},{6960,1959},{8376,2140},{7092,1955},{6927,1993},{8367,2164},{5943,2283},{6261,2293},{8379,2126},{5994,2331},{6876,1984},{6117,2302},{8358,2787},{5760,2328},{6276,2302},{8397,1995},{6843,2410},{3966,2759},{6132,2289},{6990,2010},{8430,2116},{8427,2325},{8424,2041},{6981,2115},{8094,1956},{6870,2105},{8442,2819},{8403,2120},{8415,2023},{8109,1950},{8448,2079},{8451,2034},{8406,2013},{8433,1985},{6996,2067},{8412,2116},{6972,2286},{8466,1987},{6543,2824},{8460,2290},{6339,2277},{6804,1920},{8481,2032},{8475,2127},{8463,2039},{7374,2132},{6054,2290},{6855,2301},{8508,2113},{8484,2102},{7566,2811},{7290,2161},{8502,2055},{7125,2033},{6975,1999},{7122,2165},{8505,2328},{6168,2290},{7290,1931},{7356,2747},{7125,2040},{6993,2374},{8526,2068},{8529,1970},{7083,2107},{8517,2055},{6975,2118},{8532,2847},{8514,2122},{8553,2147},{5904,2302},{6852,2157},{8562,2160},{5964,2525},{8544,2849},{7872,2009},{6870,1955},{6087,2320},{7665,2130},{8550,2106},{6423,2292},{6990,2080},{8559,2077},{8187,2450},{6825,2328},{8580,2131},{8571,2277},{7500,2328},{7431,1826},{6939,2289},{8577,2858},{6486,2330},{8586,2864},{6075,2326},{8607,2004},{8610,2871},{8604,2872},{8625,2876},{8622,2166},{8619,1981},{6996,2043},{8331,1959},{5985,2301},{6252,2302},{8637,1990},{6996,2103},{6321,2323},{6858,1982},{6966,1999},{6969,2155},{8646,2375},{8643,2151},{8136,2066},{6924,1991},{8556,2412},{6903,2072},{7047,2313},{6990,2004},{5880,2313},{6321,2292},{7629,2293},{6972,2270},{6387,2282},{6042,2284},{6282,2287},{6855,2370},{8649,2169},{6126,2320},{7629,2039},{8658,2167},{8655,2119},{8676,2893},{7578,2890},{8661,2370},{8682,2821},{8691,1993},{6882,2290},{8688,2090},{6381,2326},{6939,2291},{7341,2104},{8706,2103},{7125,2039},{6972,2134},{8709,1931},{5919,2525},{6141,2329},{7788,2068},{8712,2417},{8718,2016},{8733,2159},{8730,2153},{8715,1990},{8760,2336},{8748,2128},{8739,2004},{6069,2302},{8751,2075},{8742,2912},{8763,2174},{6981,2294},{8319,2024},{8781,1990},{8784,2543},{8787,2930},{6993,2089},{8793,1976},{8805,2040},{8799,2166},{8808,2934},{6111,2327},{6096,2327},{6105,2338},{6996,2061},{6291,2313},{7368,1950},{6924,2154},{6855,2342},{7008,1982},{8811,1781},{8823,2525},{6045,2305},{6873,2110},{8835,2105},{8838,2092},{7125,2330},{8844,2160},{8847,2294},{7350,2044},{7434,2333},{7224,2079},{8856,2953},{8865,2954},{8883,2079},{8559,2110},{6927,2063},{6915,2124},{8853,2289},{8850,2127},{8880,2959},{7257,2484},{6882,2332},{6870,2292},{5334,2284},{7548,2097},{6282,2329},{8208,2164},{8904,2159},{6864,2164},{7248,2085},{8901,2166},{6861,2073},{8907,2059},{6990,2085},{7185,1941},{8934,2492},{8916,1996},{7767,1982},{8922,2975},{6846,1925},{6483,2330},{6843,2042},{6993,2302},{8937,2543},{8940,1983},{7350,2091},{8949,2082},{6036,2328},{6312,2342},{6147,2302},{6978,2112},{6867,2328},{6120,2543},{6993,2086},{8961,2988},{8967,2159},{6849,2057},{5895,2344},{7008,2136},{6093,2430},{8982,2993},{8988,1647},{8991,2122},{8973,2136},{6960,2112},{8994,2042},{6276,2281},{6879,2153},{8043,2999},{9000,2098},{9006,2525},{9030,3009},{9009,2034},{9024,3005},{9051,3016},{8433,2091},{6807,2268},{9039,3012},{9033,3015},{9066,2036},{7710,2455},{8034,2077},{6975,2416},{6414,2281},{9060,3018},{7254,2401},{8559,2046},{9072,3023},{6999,2811},{7842,2112},{9075,2003},{9084,2001},{9087,2131},{9078,2430},{7839,2077},{8142,2712},{5853,2430},{8031,2355},{9102,3033},{8145,1952},{5775,2328},{6924,2014},{7995,1986},{5835,2328},{9132,3042},{9129,2023},{7290,2068},{9141,2690},{9159,2093},{7296,2081},{5994,2301},{9165,2322},{6807,2350},{7326,2344},{9171,2053},{9174,2017},{9189,2053},{9192,3061},{9186,1771},{9180,2762},{6873,2063},{6294,2302},{7125,2131},{6996,1970},{5760,2291},{5982,2342},{9207,2054},{6873,2103},{9213,3070},{7128,2418},{9222,3073},{9045,3072},{9228,1976},{5940,2325},{5850,2374},{7008,1952},{6990,2036},{7248,2336},{6381,2342},{6846,2046},{6993,2342},{7170,2379},{9249,2174},{6174,2338},{7248,2064},{9255,2139},{6090,2364},
{9252,1805},{6855,2078},{9258,2169},{9279,2114},{9276,1993},{6324,2313},{7089,2729},{9282,2058},{9285,2023},{6924,2151},{9288,2034},{9296,0},{5547,3099},{7161,2458},{6294,2342},{7575,2105},{6939,2073},{6417,2309},{6915,1955},{7116,2783},{9315,3104},{6981,1994},{6927,2061},{6855,2364},{7929,2478},{7374,2333},{9318,2156},{5343,2290},{9321,2525},{9308,0},{2722,3108},{12153,31},{2722,4052},{9327,2041},{9330,2139},{9340,3114},{7248,2322},{6879,2135},{6824,0},{6927,2124},{6819,1559},{7461,2453},{8325,2310},{6396,2325},{6834,2277},{6840,1931},{9370,1119},{9376,1134},{9374,0},{3357,3123},{9379,1145},{9383,0},{3435,3126},{9390,1577},{9389,0},{3465,3131},{9384,2207},{9398,0},{9416,0},{9377,0},{3369,3135},{9417,1019},{9413,0},{9394,1158},{3750,3136},{3441,3142},{9404,0},{9422,0},{9399,1049},{9397,1166},{9423,1034},{9449,0},{5667,3144},{6672,3148},{9429,1040},{9435,3147},{9440,0},{6715,3149},{4096,3152},{9467,0},{9471,3151},{9464,0},{9485,0},{9479,0},{9482,0},{4446,3163},{9500,0},{6727,3151},{9484,3168},{9476,0},{9448,1891},{9503,0},{9497,0},{9470,0},{9513,1605},{9518,0},{6726,3151},{9509,0},{9382,2250},{9494,0},{9512,0},{9524,0},{9527,0},{9533,0},{6762,3176},{6775,3178},{9536,0},{9545,0},{9539,0},{9542,0},{9544,1915},{6799,3182},{9564,1927},{9555,3184},{9582,1995},{9585,2295},{9615,2006},{6951,3209},{9600,2037},{9603,2311},{9588,3202},{9630,2315},{9609,2022},{6936,3204},{9624,2085},{9633,3198},{9591,2308},{9636,1965},{9621,2092},{9618,2038},{9597,2027},{9663,2350},{7053,3224},{7107,3243},{9735,2049},{9726,2371},{9723,1924},{9645,2335},{9648,2292},{9687,2062},{9642,3213},{9666,2108},{9684,1933},{9711,1804},{9660,2343},{9675,2353},{9720,3239},{9696,3231},{9654,2339},{9548,0},{9708,2139},{9732,2129},{9657,2344},{9681,2356},{9702,2360},{9651,2067},{9771,2110},{9825,1986},{9765,2342},{9789,2050},{9807,2403},{9768,2089},{9828,2292},{9801,3247},{9756,2381},{9753,2147},{9738,2057},{9810,2144},{7170,3215},{9822,2025},{7134,3254},{9744,2146},{9786,2393},{9813,2410},{9798,3265},{9819,2320},{9792,2401},{9774,2141},{7149,3260},{9816,2374},{9837,2004},{9870,2449},{9894,2092},{7329,3285},{9897,2091},{9912,2163},{7275,3280},{9873,2433},{7332,3300},{9876,2103},{9927,1945},{9831,2375},{9885,3296},{9864,2434},{9849,2114},{9930,2320},{5470,3282},{10011,2492},{10017,2116},{9972,1955},{9945,2017},{9939,2126},{10020,3338},{9996,2287},{10002,1994},{10032,2497},{10026,2163},{9848,0},{10029,2499},{10007,0},{9984,3330},{9999,2302},{7482,3323},{9954,3333},{9966,3325},{9978,3327},{10008,2125},{9951,3321},{6813,3329},{10134,2521},{10071,2508},{9987,1826},{10137,1933},{10116,1931},{9723,3264},{10104,2120},{10101,2087},{10089,3369},{10170,3389},{7572,3388},{10092,2035},{7158,3374},{4617,3361},{10110,2268},{10080,3354},{10038,3345},{10128,2516},{10140,3385},{10053,2169},{9690,2130},{10098,1962},{10125,3373},{10152,3386},{10146,3381},{10095,2029},{10047,2506},{10044,3350},{10074,3371},{10041,3353},{10200,2539},{10197,2143},{7584,3392},{10179,2531},{10182,2028},{10191,2106},{10233,3412},{10173,2529},{9771,2461},{9645,2418},{10218,2525},{10215,2041},{10206,2542},{9855,1985},{10188,3395},{10128,2338},{9798,2047},{10278,2108},{10248,3419},{7650,3430},{10296,2561},{6511,3335},{10269,2097},{10272,2554},{10281,2070},{10239,3415},{10305,2131},{10260,3414},{10299,2167},{10308,2091},{10362,2020},{10341,1976},{10320,1982},{10371,3456},{9819,2077},{10338,2586},{9666,2112},{9879,2009},{10329,2580},{7752,3449},{7722,3244},{10323,3451},{10350,3445},{9582,2077},{10374,3472},{10434,1936},{10386,2083},{10431,1973},{10440,2290},{10437,3474},{10419,1956},{10389,2034},{10377,3468},{10392,2124},{10380,2074},{10410,1945},{9741,2025},{10407,1956},{10425,2605},{9792,2087},{10401,2305},{10497,3500},{10506,3494},{10446,3483},{10455,3487},{10518,2623},{9795,2624},{9747,3329},{10539,3509},{10533,2628},{9741,2094},{10509,2622},{10485,1776},{10515,3442},{10470,3481},{10536,1925},{10476,2615},{10452,2542},{10593,2653},{10581,2156},{10578,2525},{10587,1967},{10545,3514},{4254,3518},{10548,2121},
{10596,2654},{10602,2345},{7905,3530},{10572,2102},{10575,1920},{10551,2641},{10560,1963},{9717,1941},{10566,2130},{10605,2659},{10563,3519},{10641,2410},{10647,2128},{8001,3554},{10686,2661},{10632,2080},{10623,2089},{10626,3550},{10689,2663},{7011,3543},{10677,2665},{10692,3565},{9819,2050},{10617,2374},{10659,3547},{8016,3545},{10671,1939},{10710,2016},{10743,2678},{10737,2097},{10752,2073},{10725,2154},{10008,2370},{10707,2690},{9993,2045},{10716,2015},{10701,3571},{8064,3580},{10731,2022},{10728,3578},{10719,2065},{10746,2113},{10749,2174},{10722,2689},{8133,3600},{10458,2326},{10794,3601},{10824,2719},{10797,3606},{10812,3609},{10806,2124},{9825,2025},{10767,2715},{10785,3594},{9690,2285},{10791,3596},{10773,2698},{10776,1771},{10779,2709},{8154,3607},{10770,2703},{10764,3522},{10857,2043},{10866,2736},{10839,3614},{8172,3612},{10440,1986},{10863,2734},{10833,2723},{8082,3214},{7461,3543},{10851,2660},{10944,2748},{10926,1778},{10899,3634},{10935,3647},{10887,2739},{8214,3627},{10923,2070},{10917,3205},{10920,2525},{10854,2432},{10896,1805},{10911,2741},{10878,2287},{10914,2038},{9645,2295},{10365,3216},{9669,2284},{10974,2291},{10947,2758},{10962,2009},{10968,2081},{10989,2167},{10956,3651},{10992,2080},{10965,1996},{10959,2762},{10995,3666},{11043,3680},{11037,2042},{11025,2781},{10254,3395},{11007,3672},{11001,3668},{11019,2099},{7101,3590},{11070,2797},{11073,2798},{11055,1987},{11064,2794},{11052,2106},{10653,1985},{9993,2516},{9771,2095},{11049,3682},{7161,3259},{11097,2030},{11088,3702},{8082,3442},{11121,1936},{8439,3705},{11094,2106},{11103,1941},{11091,2803},{11079,3694},{11085,2058},{11100,2806},{11109,2014},{10362,1939},{11172,3725},{11135,0},{10122,2002},{7968,3379},{11130,3713},{11151,2277},{11163,3719},{11154,1981},{11169,2070},{11184,2017},{11181,1992},{11145,3714},{11136,2826},{10110,3259},{11124,2159},{11223,2028},{11190,2084},{11217,1952},{11220,2084},{9663,2112},{11199,3734},{11193,2829},{11205,2832},{9855,3194},{9777,2043},{11241,2064},{8535,3752},{11253,2846},{11250,3749},{8511,3745},{9771,2714},{10188,3560},{11277,2516},{10764,2450},{11274,2301},{11262,2015},{11265,2003},{9639,3247},{11310,3767},{11325,2866},{11322,2867},{11331,2053},{11316,2076},{11319,2865},{11295,1967},{11307,2450},{11337,1986},{11355,2126},{11346,2119},{11334,2288},{11361,2289},{11370,3789},{11385,2065},{11388,3797},{11379,2119},{10698,2572},{8631,3794},{9843,1945},{11406,1976},{11400,3801},{11397,2880},{11415,3804},{11409,1968},{10269,2442},{11238,2112},{11421,2056},{10122,2326},{10332,3559},{10674,3212},{11418,1804},{11439,2111},{11436,2086},{11424,2434},{11451,2888},{8673,3818},{11460,3216},{11448,2093},{11433,2884},{11445,3814},{11430,3809},{10590,3259},{11484,2660},{11463,3822},{10128,3829},{11493,2901},{11499,2288},{11496,2900},{11490,2277},{11505,2907},{11502,2908},{11508,2015},{11520,1992},{8583,3839},{11526,3846},{11532,3843},{11535,2915},{9993,3486},{9801,1933},{11547,3850},{11556,3851},{11103,3687},{11484,3701},{11523,2401},{11487,2773},{7482,3757},{11565,2129},{11562,1988},{11373,1985},{11592,2633},{11583,2938},{11589,3862},{11577,2105},{11616,2322},{11610,2943},{8826,3868},{11607,2944},{10092,2484},{11613,2947},{11595,3867},{11598,2940},{10515,3212},{11625,1931},{10317,2095},{11646,2958},{11637,2147},{7347,3387},{11652,1990},{11664,2963},{11661,2964},{11694,3897},{10326,2962},{11682,1956},{11676,3889},{9981,3699},{11670,2965},{11655,3886},{11688,3895},{11709,3902},{11718,2971},{11724,2977},{11697,2970},{8928,3907},{7116,3610},{10419,2616},{9771,2732},{9663,2703},{11733,2099},{11745,1992},{11742,2117},{11739,2313},{11748,2981},{8115,3421},{8958,3923},{11763,3922},{11754,2984},{11760,2985},{11781,3926},{11775,1936},{10908,3374},{11796,2992},{7545,3937},{11808,3933},{11814,3001},{11817,3000},{11460,3841},{9018,3940},{11826,3943},{9021,3941},{11853,3952},{11844,2434},{11847,3019},{11871,3956},{6807,3323},{11886,3554},{11877,3792},{11880,2062},{11631,3579},{11892,3032},{11889,3030},{10113,2077},{11904,3035},
{11910,3425},{11529,2335},{10536,2029},{9117,3974},{11925,3040},{11928,3041},{11931,3045},{11811,2163},{8196,3530},{11934,3979},{10602,3253},{9150,3980},{11946,3054},{9168,3984},{10188,2412},{11964,3059},{11967,3980},{11973,3992},{11979,2962},{11982,2059},{11985,2049},{11991,3066},{11997,3068},{9978,2338},{12000,4001},{10770,2852},{12012,4005},{12018,3077},{12021,3079},{12024,2041},{9240,4009},{9246,4011},{7413,3369},{12039,4012},{12042,1978},{9267,4018},{12063,4020},{12051,3087},{12057,3091},{12066,1994},{12075,4024},{12087,3097},{12084,4030},{12099,2189},{12096,2188},{10182,1965},{10188,2677},{11013,1956},{9309,4036},{12138,4045},{9864,2483},{12132,1778},{12120,2410},{12117,2137},{12129,4042},{12141,4049},{11979,2705},{12144,3111},{9336,3948},{12162,4055},{12161,0},{10227,2108},{12171,3115},{9348,4058},{9351,4059},{2467,4056},{14193,31},{2467,4732},{6817,3192},{9354,4060},{9579,3192},{9558,3187},{9573,3190},{6801,3183},{6828,3189},{12202,1138},{3414,4067},{12205,1249},{12212,0},{3462,4071},{12230,0},{12206,0},{12224,0},{12216,1252},{3741,4072},{3495,4078},{12221,0},{12260,0},{12271,1268},{12269,0},{12253,1366},{12233,0},{12257,0},{12248,0},{3402,4080},{12245,0},{12273,1025},{6675,4087},{6681,4083},{12214,1154},{12287,0},{5673,4092},{9469,4094},{12272,0},{12288,4087},{12281,0},{6729,4100},{12305,0},{12298,3164},{6735,4107},{12325,2221},{9504,4103},{12329,0},{6732,4105},{4098,4084},{4116,4104},{12284,0},{12324,3157},{12320,0},{6765,4118},{12297,4120},{12347,0},{12353,0},{6777,4124},{12377,0},{12380,0},{6774,4127},{5745,4128},{6789,4129},{12395,0},{12398,0},{14055,3065},{14211,4065},{12399,2326},{13164,3603},{14217,4066},{14216,0},{12408,2043},{6921,4135},{9699,4147},{12447,3235},{12450,3238},{7101,4138},{12420,4141},{7035,4139},{12429,4144},{9678,4142},{9669,4145},{12453,1805},{12411,2341},{7074,4148},{7071,4145},{12483,2042},{6798,4170},{12480,2281},{12471,2062},{9759,4176},{12477,2336},{12465,2384},{12462,4169},{12501,2414},{12456,3250},{12492,2386},{9789,4153},{12504,3259},{12486,4163},{12519,3268},{12474,3261},{12579,3297},{12573,3287},{12552,4187},{12555,2345},{9852,4189},{12582,1985},{12588,3301},{12591,3303},{12549,2427},{12531,2294},{12558,3281},{12597,3305},{12600,3308},{12594,2446},{12537,2424},{12570,3286},{12540,2024},{9918,4192},{12648,2120},{9960,4212},{12612,2370},{12564,3331},{12642,2456},{12653,0},{12629,0},{12630,3341},{9933,4201},{12666,1933},{12660,2287},{12693,2295},{12678,2025},{6510,4230},{5469,4228},{12652,4209},{6912,4218},{12702,3377},{12669,2515},{12711,2410},{10068,4219},{12681,3362},{12708,2522},{10077,4221},{9759,4238},{10149,4232},{12672,4225},{12771,3401},{7170,4247},{12761,0},{12729,1950},{12732,2125},{12654,3408},{12780,3407},{12744,4246},{12786,4258},{12735,2281},{12807,4267},{12750,2118},{12783,2546},{12795,2545},{12726,2018},{12825,3408},{12810,3417},{12852,3429},{12618,2285},{12849,2364},{12843,3431},{12822,2525},{10254,4280},{12816,4273},{12855,3434},{12858,2569},{6813,4278},{12837,3421},{10326,4153},{12618,2268},{12879,4289},{12882,2577},{12888,2119},{12875,0},{12876,1804},{12864,3455},{12897,3448},{12906,2612},{7128,4187},{7101,4303},{10413,4304},{12918,1979},{12939,2606},{10077,4301},{12900,2587},{12924,3461},{12942,2614},{12954,2626},{12966,4321},{10503,4221},{12969,3507},{12981,3510},{12975,2627},{12987,2014},{12972,3508},{10458,4330},{12978,2070},{12951,3493},{12948,3491},{13035,3537},{13020,1939},{13008,2112},{13011,2323},{12558,3536},{13023,1826},{13041,4346},{13029,2655},{13095,3560},{12870,4348},{13053,3558},{13071,3540},{13062,2666},{13047,3552},{13080,3555},{13068,4363},{13061,0},{12438,3551},{12558,4295},{13077,4358},{10644,4355},{13083,2671},{13086,2676},{13128,4143},{12492,2656},{13143,4367},{13140,4369},{13110,2614},{13134,2557},{13125,4366},{13116,4368},{13122,3239},{13131,2692},{13149,2335},{13191,2050},{13158,2555},{13179,3610},{13167,2282},{10743,4396},{13155,2700},{13146,2707},{13173,4390},{13161,2287},{13185,3587},{13227,2364},{10875,4416},{13218,2030},{13236,2141},
{13221,3620},{13203,4399},{13200,3618},{13206,3616},{13209,4404},{13230,2505},{13215,2112},{13278,3371},{10890,4421},{13275,3635},{12903,2050},{12453,1950},{13269,4420},{13266,3636},{13254,3646},{10950,4427},{13308,2108},{13311,3661},{13293,4432},{13317,3662},{13284,2760},{13320,2270},{10980,4435},{13302,4433},{13332,2780},{13329,2033},{13350,2782},{13338,3678},{13341,4451},{13158,2572},{13359,3670},{13368,3522},{13371,1959},{13266,3512},{12561,3687},{13374,2747},{13365,2788},{13380,2795},{13377,4454},{13386,2112},{13407,2818},{11118,4466},{13389,3692},{12927,2408},{13401,2815},{13404,3704},{13416,2166},{13437,3729},{13434,2058},{11148,4477},{13443,3726},{13422,1979},{13428,3720},{13464,2443},{11211,4499},{13467,3732},{13386,2496},{13491,3738},{13476,4490},{13479,3736},{13461,2126},{13485,2833},{13482,2831},{13452,2038},{13512,1994},{13506,3742},{13005,2574},{13500,4247},{12522,2401},{7905,4263},{13548,2855},{13539,4511},{13527,3762},{13530,2852},{13554,2856},{13566,3771},{13557,3764},{11304,4520},{13563,2863},{13575,4524},{13581,3783},{13590,4529},{13599,4532},{13593,2012},{13602,2379},{12840,2589},{13290,3792},{12669,4535},{13608,2478},{13620,2329},{13626,1995},{13614,3798},{13632,4543},{13641,2304},{12714,2714},{13644,2020},{13659,3819},{13647,2125},{13128,2574},{13662,3779},{13653,2450},{13677,3826},{13692,4562},{12990,4563},{13683,2898},{13665,3823},{13680,2374},{8556,4160},{13668,2899},{12885,4303},{8094,4163},{12678,4144},{13713,3838},{13602,2035},{13704,2370},{13605,1959},{11523,4573},{13728,4575},{7065,4574},{13740,4458},{13737,2009},{10110,4501},{13743,2923},{13746,2925},{13749,3543},{13755,2896},{12825,2141},{13650,3195},{13758,1959},{10458,4583},{7035,4456},{12576,2095},{13767,2077},{13776,2104},{11619,4596},{13803,3876},{13791,2447},{13812,4603},{13521,3877},{12528,2412},{12462,2574},{13800,4598},{13797,3874},{11643,4606},{13821,2957},{13815,3394},{12498,3215},{12660,2442},{13830,2150},{13824,3893},{11532,4611},{11673,4609},{13842,3901},{13848,3905},{13851,4619},{13854,1959},{13845,2419},{13836,3900},{13707,4625},{13881,2041},{13872,3909},{13878,3912},{7446,4631},{13890,2386},{13884,2287},{11226,4503},{9732,4440},{13902,4580},{13896,4633},{12696,4244},{13914,4637},{13752,3421},{13929,2995},{13926,3930},{13236,2012},{13536,2665},{11802,4644},{13935,3004},{13941,3944},{13251,3222},{7359,4650},{13956,3947},{7905,4597},{13947,3014},{13944,3945},{13044,2477},{13962,3955},{13965,3958},{13953,4573},{13974,3031},{13980,2917},{13983,3027},{13971,2185},{13506,2012},{7488,4133},{13992,3036},{13995,3972},{13362,2962},{14007,4670},{14004,2308},{13191,2068},{13023,4631},{14019,3049},{14016,3290},{14028,3306},{14037,3985},{14043,4682},{14052,2058},{14058,3996},{13188,2095},{13116,3194},{14070,4002},{13335,3364},{12009,4691},{7929,4510},{13641,3759},{14085,3081},{12750,2408},{13500,2482},{13032,3759},{7968,4509},{14100,3088},{14097,4016},{12045,4698},{14109,4023},{14106,4704},{10503,4309},{7128,4563},{14124,4707},{14129,0},{14132,0},{12636,3222},{9307,4709},{14016,2703},{13866,2551},{14133,4035},{14139,1973},{8349,4314},{13902,2507},{14148,3793},{14154,4719},{14160,3792},{14127,4050},{14169,4724},{12633,2747},{14187,4728},{14181,3119},{14192,0},{2470,4734},{15702,31},{2470,5235},{14210,0},{14223,4069},{14228,0},{14230,1874},{14237,0},{14232,4075},{14244,4088},{14255,0},{4377,4749},{14252,0},{14231,0},{3747,4747},{12237,4746},{14291,0},{9450,4755},{12291,4761},{14269,4093},{14264,0},{14296,4764},{14282,0},{9459,4759},{14288,0},{14224,3124},{14305,1899},{14312,0},{14294,0},{14303,0},{9486,4766},{3804,4769},{14318,0},{5682,4773},{14323,4106},{14268,4771},{14324,0},{14327,0},{12342,4782},{14326,3172},{14342,0},{14289,4111},{14344,4779},{14304,2251},{14330,0},{14339,0},{14333,0},{14345,0},{14351,0},{14360,0},{9526,4785},{12366,4787},{14357,0},{12379,4789},{14369,0},{14378,0},{14381,0},{14384,0},{12394,4794},{15525,4662},{15685,4053},{14895,5128},{14397,1984},{15348,5117},{15708,4733},{12438,4804},{14409,3230},{14424,2379},
{14427,2376},{14445,4165},{14415,3249},{14442,2404},{12522,4817},{14448,4175},{14433,4812},{14439,4172},{14421,4806},{12513,4810},{14493,2445},{14475,4164},{14460,2070},{12534,4821},{14481,3289},{14484,4188},{14459,0},{14490,2329},{14487,3293},{9834,4823},{14454,2421},{14499,3307},{14517,3319},{14511,2108},{14547,4208},{14550,4215},{14553,2494},{14538,3316},{14541,4211},{14535,4206},{12609,4843},{14520,2376},{14532,4838},{14523,4205},{14520,2310},{14559,4233},{14565,1985},{14571,4858},{14562,3355},{14634,4266},{12723,4872},{12762,4864},{14597,0},{14604,2541},{14631,4264},{14583,2006},{14622,3410},{14613,3403},{12789,4876},{12804,4875},{12756,4862},{14600,0},{14610,4251},{14664,2551},{14637,4271},{14640,2556},{14544,2277},{14652,2555},{14655,2408},{14649,3425},{14676,4891},{14670,2001},{14658,4277},{14644,1831},{14694,2582},{14682,1933},{14715,4287},{14709,3438},{14703,4906},{14712,4298},{14691,2115},{14688,3452},{14745,4311},{14733,2603},{5493,4881},{14721,2507},{14739,3476},{14772,3264},{7848,4923},{14760,3498},{10488,4919},{14763,3497},{14754,3504},{14766,4320},{14751,3267},{14679,4916},{13032,4932},{14793,4926},{14802,3523},{14790,4339},{14784,4222},{14805,3533},{14811,2355},{14775,2165},{14835,4364},{14826,4944},{14814,3538},{14823,2681},{14829,3561},{14817,4350},{14838,2349},{7011,4958},{14847,4371},{14871,2447},{14865,4379},{14863,1544},{14844,4932},{14880,3586},{14910,4392},{10602,4966},{14907,3605},{14886,4384},{14862,1544},{14919,3615},{14748,4138},{14928,4139},{14496,4977},{14925,2730},{14940,3623},{14922,2443},{14976,2155},{14973,4417},{14964,4987},{14955,2745},{10929,4982},{14970,4989},{14952,3631},{14988,2769},{14985,4993},{13323,4999},{14991,2772},{15003,4445},{15006,2778},{15015,3676},{15009,3671},{15027,5008},{13383,5015},{15042,2379},{15033,5010},{14769,2551},{15042,2487},{15060,2807},{15051,2800},{15057,4365},{15069,3548},{15063,5022},{15090,4483},{15078,4475},{15075,2823},{15111,2830},{15105,5032},{14418,4491},{15135,4899},{15117,2840},{15138,3743},{15141,5048},{15132,3530},{13509,4847},{15147,3748},{15126,3744},{14409,4138},{15159,3760},{15162,4514},{15156,2483},{15153,1979},{11271,5050},{15096,2496},{15168,3766},{15174,3271},{15183,4523},{15192,3786},{15180,3780},{15186,3784},{14871,2298},{15204,4309},{15207,2878},{15213,4539},{15222,5073},{14799,4168},{15240,3523},{15237,4550},{15243,2889},{15249,3824},{14535,2408},{14946,2287},{14469,5086},{15246,3825},{15123,2054},{15255,2895},{15279,2777},{15276,3501},{15264,2732},{13707,5035},{15288,3617},{15297,2919},{15303,2918},{7716,5104},{10905,4804},{15318,3853},{8094,5068},{15339,5112},{15321,4169},{15330,3272},{15327,3856},{15333,3857},{15324,3858},{15342,2939},{15357,3878},{15363,3880},{15150,5122},{15372,2956},{15387,2024},{15402,3904},{15396,5133},{15408,2973},{10503,5123},{15417,4623},{15423,3910},{15435,3917},{13908,5152},{15447,5148},{15453,2328},{15465,2329},{14415,2453},{15471,3929},{14529,4611},{14778,4536},{15258,2096},{15489,3946},{15498,5165},{15516,3961},{15513,3929},{15534,3967},{15531,3965},{15537,2130},{15540,3762},{15543,3973},{15555,3046},{9144,5186},{15570,3983},{15579,3998},{14391,2507},{15585,3067},{15582,4687},{15588,4514},{15594,3075},{15600,2010},{15198,4694},{15612,4010},{15606,4696},{15615,2320},{14931,5023},{15099,2732},{15621,4701},{15261,2408},{14655,4330},{15639,2449},{14772,1984},{15648,5215},{15657,5217},{15660,4712},{12555,4931},{15666,4038},{6912,4821},{15669,2163},{15276,4602},{13860,4979},{14166,5224},{13968,5164},{14913,4419},{15678,5225},{14178,5228},{9360,5218},{15696,4735},{12186,5230},{15504,4554},{15716,0},{15721,4077},{15723,4752},{15728,0},{15746,0},{15737,0},{15741,2234},{14274,5246},{15720,4757},{14259,5244},{15749,0},{15729,2233},{15773,0},{15766,5252},{12306,5258},{12294,5250},{15767,0},{15758,0},{15762,2201},{15755,0},{15779,0},{6696,5254},{15761,0},{6747,5263},{14263,5264},{15778,5251},{15782,0},{15797,0},{14295,5262},{15803,0},{12336,5268},{15809,0},{15810,4784},{9520,5273},{12363,5280},{15827,0},{15833,0},
{15818,0},{9519,5273},{15843,5279},{15813,4116},{12357,5276},{15806,0},{14364,5282},{15853,5285},{15857,0},{12358,5276},{12369,5286},{14373,5288},{12390,5289},{14385,5291},{6795,5290},{14400,5297},{15888,3121},{16721,0},{16682,0},{15897,4156},{15900,4166},{14478,5307},{12543,5302},{15909,4832},{12546,5304},{15933,2441},{15927,3294},{14466,5305},{15903,4195},{15918,5308},{9906,5310},{15948,4835},{14544,5322},{15963,4834},{15942,3314},{9987,5323},{15957,2480},{14526,5312},{16002,5303},{7560,5336},{15975,2504},{15996,3387},{15978,4156},{7500,5330},{14568,5328},{16005,4235},{16014,3398},{16011,4240},{16020,4255},{16019,0},{16041,3428},{16050,5346},{14661,5345},{16026,4882},{14667,5351},{16044,2269},{16029,3422},{10311,5344},{16023,2549},{16074,2160},{16092,4902},{16086,3221},{16065,2572},{16071,3444},{16083,3453},{12870,5363},{16068,4895},{16110,5369},{16104,4312},{12915,5373},{16101,3466},{14730,5371},{16116,2119},{14727,5366},{16130,0},{16125,3489},{13005,5382},{16155,4342},{16143,4331},{14799,5383},{16137,5380},{16161,4296},{16173,2461},{16164,2660},{16170,3546},{16176,3556},{13005,5401},{16197,4950},{16191,5396},{16194,4947},{16200,3585},{14904,5406},{16089,2410},{16212,4394},{16209,2701},{16206,2699},{16239,3624},{16233,4411},{16230,2732},{16244,0},{16236,4414},{16245,3628},{16254,4424},{16263,2752},{16251,2744},{16260,2747},{16257,2551},{16275,4429},{16281,4430},{16278,3657},{16272,5428},{6813,5372},{16269,5422},{15981,2775},{16290,5006},{16287,4933},{16296,4448},{16323,2812},{13413,5446},{16332,3709},{16329,4482},{15087,5442},{16347,4485},{16260,4501},{16356,3376},{16353,4506},{16311,2703},{16518,2275},{13524,5453},{16377,4888},{16380,3761},{16368,2418},{16389,3763},{15177,5467},{16395,5466},{16404,3781},{16134,5010},{16419,5471},{16431,4541},{16437,5076},{16434,4545},{16440,4552},{15132,5382},{16449,4558},{16443,3827},{13671,5482},{15267,5486},{16467,2331},{16470,4567},{16452,5094},{13695,5487},{16473,3837},{16479,5492},{15966,2570},{16482,5097},{16488,3847},{16491,3848},{16497,2932},{16509,4590},{16506,3860},{16518,3329},{13377,5428},{16503,4588},{16524,4593},{16527,4509},{12915,5510},{16533,2966},{16071,2452},{16539,2049},{15936,4622},{7374,5514},{16551,4351},{13230,5518},{16287,2551},{16302,2350},{16569,2990},{16566,4640},{16368,2461},{16572,3931},{16578,3935},{15429,5364},{15483,5527},{16587,2091},{16590,2347},{16527,2962},{13977,5533},{16515,2455},{7050,5535},{16608,3037},{16602,5448},{13839,5539},{16620,3981},{16623,4678},{15135,5535},{16542,2418},{16632,4688},{16638,4689},{15597,5547},{16644,3078},{16647,5201},{7434,5530},{16650,4697},{16113,4305},{16656,3090},{16662,3310},{16668,2387},{16671,5212},{16674,4027},{16173,3241},{16683,5221},{16695,2077},{16692,4041},{16530,2387},{16698,4717},{16230,2455},{16704,5130},{15681,5369},{14200,5573},{16716,5571},{15687,5518},{11850,5528},{16734,5239},{16738,5242},{16739,0},{6688,5580},{16754,0},{16755,5583},{16742,0},{16765,3165},{16760,0},{15768,5582},{16762,5257},{16763,0},{16769,0},{16778,0},{16782,5595},{3390,5596},{16781,0},{16794,5597},{16777,4772},{16799,0},{16820,0},{16808,0},{16764,4113},{16805,0},{15822,5609},{16824,5607},{16856,0},{16850,0},{16834,5612},{16845,5614},{16803,4776},{16859,0},{16832,0},{16853,0},{16863,5620},{16838,0},{16868,0},{15852,5623},{16877,0},{16874,0},{16880,0},{16882,5292},{16883,0},{16886,0},{16889,0},{17505,5577},{16893,4134},{17498,0},{14472,5634},{7278,5635},{15939,5642},{16911,4836},{12606,5638},{16932,2287},{16929,4213},{16935,5320},{16923,2487},{16923,5640},{16917,3312},{15951,5636},{16944,5329},{15987,5649},{16953,4229},{15993,5650},{16938,5647},{16977,4873},{16965,3404},{16962,3409},{16059,5664},{16989,4893},{16932,2453},{16983,3259},{16998,5341},{16980,5359},{16096,5672},{16080,5673},{17013,3253},{17004,4899},{17007,5670},{16995,2456},{17031,2611},{17025,3465},{17040,3195},{16980,4141},{17043,3264},{17018,0},{17022,3465},{17034,4310},{16131,5687},{17055,4319},{17058,2515},{17064,5682},{16134,5683},{6528,5689},{14502,5690},
{17073,3566},{17085,5395},{17082,5394},{17079,4231},{17088,4940},{17100,4959},{6813,5644},{17097,4951},{17091,5366},{17103,4961},{17115,2714},{17112,5703},{17106,5398},{17130,4978},{17127,4413},{16119,5706},{17121,2727},{17139,5416},{17154,3659},{17157,4438},{17163,2773},{17160,4442},{17133,4186},{16989,5004},{17178,2035},{17181,4452},{17172,3677},{17175,5723},{16305,5649},{15039,5729},{17196,2616},{17208,5450},{17202,4496},{16986,5729},{17199,5034},{17070,4505},{17013,5307},{17226,5455},{16374,5740},{17238,3512},{17244,4526},{17247,4528},{17250,3788},{17253,5475},{17262,4546},{17043,4491},{17274,5087},{17277,5090},{17280,5091},{17286,2909},{17283,4570},{17295,4572},{17301,5495},{17298,4577},{7161,5768},{17115,3285},{17313,2461},{17049,5362},{17316,4591},{17325,5776},{17319,4594},{17331,5118},{17334,4602},{14898,5715},{17340,4613},{17349,3303},{17355,5784},{17358,3919},{17364,5153},{17370,4641},{17379,5159},{17382,4646},{17391,3953},{15522,5799},{17400,5176},{17403,4656},{17406,3969},{17334,4405},{17409,4666},{17412,5183},{16938,4807},{17415,5189},{14730,5665},{17349,1959},{17436,4692},{17439,4693},{17421,4625},{16920,5539},{17457,4705},{17070,3329},{15654,5633},{17124,4937},{14145,5825},{7434,5771},{17481,5567},{17484,4721},{17490,4967},{17487,4501},{15894,5632},{14199,5632},{16890,5295},{17510,0},{17514,5581},{17519,0},{16800,5846},{17541,5590},{15783,5848},{17531,0},{6687,5842},{16774,5845},{17520,5844},{17525,0},{17537,0},{17565,5605},{17555,0},{17561,0},{17512,5836},{17552,0},{17547,5266},{17518,3158},{14334,5854},{15760,5846},{17577,5278},{17576,0},{17530,5604},{12328,5854},{17585,0},{17582,0},{17586,5863},{17594,0},{17597,0},{17524,5603},{15849,5868},{17607,5867},{17612,0},{16833,5871},{17621,0},{14370,5874},{17633,0},{15876,5878},{17641,4796},{17643,4798},{16722,5883},{15709,6030},{17646,5990},{17649,5294},{17640,4796},{12621,5885},{17652,5315},{17685,4239},{17682,4860},{17673,4859},{17661,5890},{17664,4852},{17658,5324},{16956,5892},{15999,5893},{17667,3352},{17700,5657},{17697,5658},{17691,4863},{16959,5896},{17709,4282},{17715,3439},{17721,2295},{17670,4900},{17718,5667},{17714,0},{12927,5908},{17745,4307},{17727,5913},{17028,5912},{17732,0},{16095,5921},{17751,3488},{17760,5684},{17766,2620},{17757,4140},{16122,5916},{17781,5925},{17772,4929},{17790,5389},{7993,5929},{17789,0},{17805,4373},{17793,3568},{14868,5934},{17796,4952},{17799,5698},{17817,5408},{17811,5936},{17820,4971},{17826,2347},{17838,5945},{17133,5944},{17841,3644},{17844,4994},{17847,4885},{17832,2271},{17853,5007},{17850,2333},{17862,5436},{17859,5728},{17874,5957},{11058,5956},{17865,3689},{17877,4826},{17883,2132},{17889,5041},{17895,5040},{17886,5043},{17898,2705},{13545,5967},{17814,4512},{17910,5470},{17916,5066},{17919,3791},{17646,4797},{17922,4537},{17928,5084},{17931,5095},{17292,5979},{17874,5978},{17940,2065},{17946,5981},{17949,5103},{17952,2452},{17958,5105},{17955,5498},{17961,4587},{17967,5945},{17964,5115},{17976,5120},{15891,5990},{17982,5126},{17979,3591},{17871,5973},{17985,5142},{17988,2982},{17991,5150},{17994,4639},{16077,5911},{17376,5956},{18003,2714},{18012,4663},{18006,5164},{16602,5963},{17946,5293},{11373,6005},{17940,6001},{18021,5537},{18024,4667},{13719,6005},{18030,4671},{17943,6001},{18039,2390},{11958,5975},{14040,6014},{18000,3285},{17937,2045},{17718,2483},{18048,5419},{17916,5396},{17775,5305},{18051,2694},{18057,4706},{18066,5563},{15039,5984},{18069,4725},{17493,6015},{18075,5989},{17847,4902},{17502,6026},{17499,5940},{18089,0},{17511,6032},{18101,0},{18102,4110},{18110,0},{18122,0},{18111,5852},{18121,6041},{18119,0},{18107,0},{18114,5604},{18125,0},{16809,6042},{18151,5857},{17568,6048},{18132,6045},{18155,0},{18149,0},{18141,6046},{16773,6043},{18167,0},{18161,0},{18166,5860},{18158,0},{17598,6057},{18150,5602},{18169,5865},{18170,0},{18194,0},{18179,0},{18191,0},{18188,0},{18200,0},{18143,0},{16867,6059},{18189,5875},{18192,6062},{15862,6068},{18206,0},{18212,0},{18225,6072},{18233,0},{15981,6079},
{18234,5323},{17694,6082},{18240,4249},{18252,4256},{18264,4259},{14607,6086},{16968,6087},{18255,6081},{17706,6092},{18270,4276},{18273,5352},{18279,4295},{18237,5914},{18291,6096},{18295,4912},{18285,4914},{18282,5911},{18276,5679},{14736,6098},{18300,4315},{18306,5923},{18315,4334},{18321,3528},{18327,5928},{18324,5386},{18314,0},{18318,4332},{18333,2452},{18282,4882},{7992,6114},{18341,0},{18336,4953},{16149,6115},{16227,6118},{18357,4963},{18351,4967},{18348,4965},{18360,4981},{18363,5943},{18366,4419},{18381,4449},{18393,5730},{18390,5012},{18387,5433},{18384,5434},{18396,5018},{18402,5439},{18405,5960},{18408,4465},{18399,4464},{18411,5445},{13521,6138},{17214,6141},{16371,6089},{18420,5740},{18417,5454},{18432,3776},{18429,5464},{18426,4517},{18243,3253},{18435,5067},{18438,5070},{18441,5476},{18444,5072},{18447,5077},{18453,5100},{18459,6152},{18462,2922},{15306,6155},{18468,4584},{18477,5500},{18480,5504},{16203,6161},{15384,6164},{11649,6163},{18498,5131},{18495,5130},{18423,5473},{18504,5519},{18507,4635},{18510,5154},{18513,5435},{14616,6172},{18333,5088},{18354,2367},{18522,5795},{18288,5670},{15003,6092},{18537,4651},{18531,2714},{18543,5538},{18540,6177},{18552,4675},{18549,5187},{18555,5293},{18558,3987},{18564,3990},{18570,2040},{18573,3358},{15609,6193},{18582,4694},{18585,5206},{18414,2496},{17211,6140},{18267,4141},{18594,5348},{18513,5679},{18588,3618},{18078,6117},{18597,5758},{18468,4650},{18081,6165},{18603,5942},{18600,5958},{18093,6116},{18615,5237},{18224,0},{18620,0},{18626,0},{18627,6214},{18630,6216},{18635,0},{18653,0},{18647,0},{18662,0},{18157,6220},{18674,0},{18659,0},{18638,0},{18666,6221},{18656,0},{18678,6057},{18675,6058},{18696,6061},{18689,0},{18658,6218},{18692,0},{17616,6234},{18708,6233},{16872,6235},{18725,0},{18728,0},{15861,6243},{17637,6244},{19080,6204},{18735,6362},{18609,6361},{15954,6246},{18741,5660},{18744,6083},{18765,5901},{18267,6250},{18753,5662},{18759,5354},{18747,6252},{18762,5349},{18774,4297},{14724,6259},{18786,6103},{18798,6103},{18789,4328},{18297,6265},{18792,6101},{18780,6261},{18801,4333},{18804,4927},{18330,6269},{18816,5393},{18822,4352},{18813,6081},{18828,4241},{18825,3264},{18747,4900},{18837,4964},{16221,6278},{18831,5407},{18840,4415},{18846,5708},{17823,6281},{18849,4979},{18852,4800},{18833,0},{18800,0},{18369,6285},{18861,6124},{16311,6288},{18873,4470},{18867,5438},{18870,1949},{18876,5024},{18885,6294},{18891,4480},{18888,3530},{18879,4473},{18894,5036},{11259,6299},{16386,6302},{18900,6301},{18915,5469},{18924,4176},{18930,5075},{15012,6312},{18936,6115},{18939,4578},{18942,5769},{18948,6315},{18888,4140},{18954,5505},{18957,4595},{18960,5125},{17934,6252},{17850,6321},{18966,5779},{18969,5137},{18972,4620},{18975,4288},{18978,5303},{18984,5791},{18987,4574},{14409,6257},{18990,2347},{19017,6338},{18996,2434},{18999,5169},{18807,3543},{19002,5345},{18978,5003},{18018,6335},{19011,6336},{19014,2112},{14022,6285},{19023,5188},{18279,6328},{19032,4683},{17292,6290},{16365,6318},{18045,6328},{19035,5011},{18924,5732},{19038,4267},{19050,4026},{19035,2108},{19053,5129},{18846,4355},{18990,2714},{19062,6355},{19068,6357},{19074,4063},{19091,0},{18621,6365},{18639,6366},{16839,6369},{18162,6371},{18669,6370},{19106,0},{19103,0},{19133,0},{18684,6372},{19134,6375},{19142,0},{18138,6370},{18682,6367},{19145,0},{19146,6065},{19151,0},{19157,0},{19163,0},{19160,0},{19172,0},{18214,6391},{19431,3052},{19407,6178},{19191,6396},{19194,6256},{19437,5806},{19177,6393},{19181,0},{19178,0},{19482,6359},{19175,0},{19186,4867},{19187,0},{19184,0},{19206,6400},{19197,6403},{19203,6257},{19215,5918},{19230,5384},{19227,5926},{19224,4338},{19223,0},{19235,0},{19239,6412},{19242,6413},{19245,2412},{19212,4398},{19257,5405},{19254,5938},{19263,2478},{19260,4972},{19271,0},{19281,5702},{19272,4983},{17145,6428},{19293,6125},{19266,3674},{19299,5440},{19302,5027},{19308,2322},{19311,5031},{19179,6392},{19305,5028},{19314,5735},{19320,6441},{15099,6421},{13494,6439},
{11238,6442},{16371,6428},{18909,6443},{19335,6304},{18921,6446},{19344,5078},{16455,6450},{19245,5908},{19356,5770},{19353,4341},{19362,5674},{19359,2350},{19368,5991},{13515,6451},{19371,5512},{19338,4398},{19377,6458},{19380,4621},{19386,5143},{19383,5902},{17367,6464},{18000,6462},{19395,5138},{19398,5160},{19404,6288},{17373,6453},{19413,4653},{11862,6472},{19359,2614},{19419,4269},{19422,3971},{19236,4501},{19434,6011},{19323,5807},{19440,4842},{19443,6451},{19446,5543},{19449,6413},{19452,6171},{15546,6404},{19326,6421},{19368,4176},{19464,4031},{19407,6175},{19467,1985},{19470,6352},{17469,6491},{19443,5729},{19476,6020},{1035,6496},{19493,0},{19496,0},{19499,0},{19122,6502},{19491,6376},{18681,6503},{19502,0},{19517,0},{19520,0},{19512,6060},{19501,6231},{19495,6373},{19513,6060},{19526,0},{19529,0},{18720,6515},{19542,6515},{18201,6513},{17628,6516},{15879,6518},{6822,6523},{5796,6524},{4656,6524},{6837,6525},{19580,0},{19578,6392},{19608,5692},{19553,0},{18213,6527},{19586,0},{19587,4867},{19579,6394},{19176,6524},{19562,0},{19599,6404},{19563,6532},{4497,6524},{4509,6523},{19564,6520},{19595,0},{4506,6525},{19565,0},{5508,6525},{4506,6524},{19591,6411},{19602,4936},{19614,6273},{19605,6270},{8007,6525},{5508,6524},{4497,6530},{19590,6539},{19620,6417},{4482,6524},{4530,6523},{8166,6525},{4500,6525},{19626,4807},{19629,3534},{19625,0},{19632,4408},{4482,6539},{4500,6530},{4641,6523},{4644,6524},{4482,6530},{4887,6524},{4272,6530},{19644,5714},{5520,6524},{4647,6525},{19638,6425},{18858,6547},{2838,6530},{4500,6539},{4887,6530},{4272,6539},{19650,5000},{19647,6551},{4497,6539},{4506,6530},{4644,6530},{5529,6524},{8328,6525},{19656,5431},{5508,6530},{4647,6530},{4644,6539},{4506,6539},{2838,6539},{5520,6530},{4887,6525},{19662,5447},{4500,6524},{19671,5038},{4887,6539},{19677,5448},{19668,2410},{19598,0},{4647,6524},{5529,6525},{19674,1034},{19665,5901},{19683,6562},{19677,3194},{5508,6539},{19692,3327},{4647,6539},{5529,6530},{19682,0},{17907,6565},{5520,6539},{19698,5063},{19701,5065},{5529,6539},{19704,5752},{17925,6569},{16983,6559},{18471,6571},{19719,6317},{19718,0},{19725,2347},{19728,5123},{19734,5135},{17346,6579},{19665,2157},{18501,6581},{19740,5515},{13887,6582},{19749,5144},{19752,5999},{18519,6585},{19758,6467},{4656,6525},{19743,4651},{19764,6331},{19767,5798},{13968,6590},{19776,1985},{19779,5182},{19425,6594},{19559,0},{17946,6518},{19788,6012},{17424,6597},{19611,5409},{17427,6599},{19803,6189},{19806,6192},{19809,6485},{19815,5942},{17445,6604},{18588,6590},{12102,6569},{19824,4037},{19823,0},{19827,5562},{19836,6610},{6837,6539},{19317,6581},{6837,6530},{4656,6530},{5796,6539},{4656,6539},{5790,6524},{5790,6530},{18072,6569},{8778,6530},{6549,6524},{8772,6523},{5790,6525},{8778,6524},{5790,6539},{6549,6539},{6549,6525},{8778,6539},{6549,6530},{5796,6530},{19572,2279},{15699,6525},{19668,4393},{14406,6525},{19841,0},{19842,6212},{19119,6615},{19859,0},{19853,0},{18693,6620},{19856,0},{19137,6616},{19871,0},{19152,6622},{19874,0},{19877,0},{19851,6512},{19881,6238},{19889,0},{19895,0},{17632,6632},{19898,0},{20268,6522},{19907,0},{3229,6793},{5790,6638},{19919,0},{5796,6638},{20243,0},{20000,0},{19928,0},{19934,0},{19935,6524},{19915,6646},{19942,6531},{19914,6530},{19955,0},{19952,0},{4497,6638},{19949,0},{19946,0},{19973,0},{19970,0},{19964,0},{19941,6653},{19965,6647},{19611,6659},{19976,0},{4506,6638},{19985,0},{19922,0},{3148,6662},{20003,0},{20006,0},{19991,0},{19997,0},{19994,0},{20013,6545},{4887,6638},{20012,0},{3040,6669},{4500,6638},{2838,6638},{20027,0},{20030,0},{20036,0},{20033,0},{20022,4986},{19278,6672},{20054,0},{5520,6638},{20042,0},{20039,0},{20058,4998},{5508,6638},{20055,5717},{20051,0},{20045,0},{4647,6638},{20084,0},{20081,0},{20072,0},{20063,0},{20076,5952},{20069,0},{20066,0},{19296,6691},{20090,0},{3112,6697},{20087,0},{5529,6638},{20048,0},{20094,5016},{20099,0},{20108,0},{20102,0},{20105,0},{20111,0},{4482,6638},{19945,6532},{20114,0},{4644,6638},{20123,0},{20117,0},
{20144,0},{20129,0},{20141,0},{20130,5964},{20133,2841},{17211,6708},{19689,6716},{19977,6250},{20151,5461},{20160,2861},{20159,0},{20154,5055},{20165,0},{20168,0},{20177,0},{20178,4330},{20183,0},{4497,6723},{20186,0},{20187,6309},{20073,5936},{20190,5757},{4506,6723},{20193,4566},{4647,6723},{4644,6723},{6837,6723},{5529,6723},{8778,6723},{20196,6158},{5508,6723},{4482,6723},{20199,6574},{20205,6455},{4272,6723},{2838,6723},{4887,6723},{4500,6723},{6549,6723},{5520,6723},{20208,6577},{20211,5138},{20214,5516},{20223,5146},{20220,6463},{20217,1992},{19944,6532},{20226,6743},{5790,6723},{20238,5796},{20235,6587},{20244,6176},{20247,5531},{20250,6591},{20253,2807},{20256,3038},{20262,6009},{19785,6753},{20178,6340},{17694,6659},{19794,6759},{20280,6600},{20283,5811},{20286,5814},{19461,6737},{19041,6763},{19458,6708},{20292,5817},{20295,6348},{20298,6016},{4656,6723},{20301,6611},{20304,4714},{19899,6522},{20313,5824},{20318,0},{6837,6638},{5796,6723},{6549,6638},{19059,6773},{8778,6638},{20324,0},{20330,0},{20327,0},{20333,0},{20340,5570},{19383,6691},{20348,0},{20354,0},{20357,0},{20351,0},{20336,0},{20360,0},{20363,0},{20345,0},{20339,0},{19914,1552},{20372,0},{20369,0},{20366,0},{20382,4064},{19913,0},{19910,0},{19904,0},{20375,0},{20378,0},{20388,31},{20393,0},{20396,0},{19149,6800},{20405,0},{19521,6799},{20411,0},{20417,0},{18711,6804},{20423,0},{20420,0},{20426,0},{20429,0},{20434,6389},{20430,6388},{19167,6811},{18207,6813},{20310,6968},{20448,1076},{20449,1293},{20460,6815},{6822,6825},{20988,4740},{20530,1192},{20912,0},{20308,6969},{20982,6993},{20453,0},{19821,6969},{20514,6416},{20862,6518},{18465,6954},{20472,6818},{20483,0},{20480,0},{4509,6825},{20492,0},{20493,6832},{20454,6524},{20487,6828},{20513,0},{20510,0},{20529,1049},{20527,6541},{20522,0},{20524,6666},{20524,6411},{20532,6845},{20523,6539},{20557,1163},{20552,0},{20523,6821},{20547,5712},{20526,6673},{20636,0},{4482,6841},{20561,0},{20571,6858},{20577,2635},{20564,0},{20565,6856},{20580,5716},{20556,1013},{20588,0},{20601,5722},{20600,0},{20597,0},{20612,0},{4497,6841},{20625,5731},{20619,6874},{20616,6871},{4272,6841},{20654,0},{20648,0},{11022,6883},{20640,1037},{20477,0},{4530,6825},{20664,6887},{19596,6832},{20438,0},{4482,6821},{4500,6841},{4887,6841},{4500,6821},{4641,6825},{20672,0},{20681,0},{3112,6880},{4506,6841},{20703,5741},{20706,5743},{20697,5739},{20700,3756},{4497,6821},{4644,6841},{20712,5057},{17904,6903},{4272,6821},{2838,6841},{20172,6905},{19332,6907},{5508,6821},{4644,6821},{4647,6841},{20733,2350},{4506,6821},{5508,6841},{4647,6821},{4887,6821},{5529,6841},{20745,5753},{20741,0},{2838,6821},{5520,6841},{5529,6821},{20748,6449},{5520,6821},{20751,6150},{19710,6919},{20756,0},{20762,0},{20765,0},{20768,0},{20771,0},{20775,5507},{20780,0},{20774,0},{20784,5774},{20783,0},{20795,0},{20787,6162},{20792,0},{20801,0},{20819,0},{20798,0},{20807,0},{20804,0},{20808,5781},{20814,5147},{20811,5991},{20823,4203},{20820,5520},{20829,6327},{20834,0},{20838,5170},{20835,5167},{20841,6470},{20844,5173},{20847,5532},{20850,3966},{19428,6951},{20858,0},{20859,6182},{20823,2281},{19558,6814},{20444,0},{18561,6955},{20868,5542},{20871,5810},{20874,5197},{20877,5551},{20883,5816},{20886,5553},{20880,6018},{20892,5208},{20889,6349},{17460,6965},{20900,0},{20901,6197},{5796,6821},{4656,6841},{6837,6821},{5796,6841},{20918,0},{8772,6825},{5790,6841},{20921,0},{6549,6821},{6549,6841},{8778,6821},{8778,6841},{20925,5569},{20930,0},{20934,6979},{20577,5693},{20924,0},{4656,6821},{20955,6986},{18084,6982},{20943,6493},{5790,6821},{20459,0},{20978,0},{18003,6969},{6837,6841},{19503,7003},{19863,7004},{21017,0},{19533,7008},{21023,0},{19530,7006},{20421,7009},{18718,7010},{21021,7012},{20415,7011},{21042,7003},{21032,0},{21053,0},{21047,0},{21056,0},{21450,6003},{21449,0},{21596,0},{21066,6999},{5508,7137},{21576,5576},{21363,5763},{21579,5575},{9366,7027},{21423,5140},{21584,0},{21092,0},{21497,0},{21573,6995},{21054,6641},{21104,0},{21113,0},{19956,7036},
{19936,7040},{21114,6833},{21123,6835},{21129,7042},{21095,0},{20544,7046},{21137,0},{21143,0},{21146,0},{19594,7031},{21147,6851},{21152,0},{21161,0},{21168,6821},{21162,6126},{21167,0},{19624,6640},{21744,7031},{19624,7249},{20592,7058},{20607,7061},{21191,0},{21155,0},{21180,2121},{21177,6861},{21173,0},{21169,6666},{21065,0},{21205,6878},{21215,0},{21200,0},{21205,7071},{21212,0},{20643,7069},{21233,0},{19921,7031},{21224,0},{21077,0},{21204,7056},{21046,7083},{4482,7056},{19966,7082},{21242,0},{21263,0},{21267,6894},{21266,0},{21257,0},{21260,0},{21254,0},{21226,6560},{21117,6652},{21270,6898},{21118,6652},{21285,7096},{21282,5745},{21279,5744},{21296,0},{21225,6723},{21278,0},{21293,0},{21300,6306},{21299,0},{21305,0},{21308,0},{21312,5971},{21309,5472},{4497,7068},{4497,7056},{21317,0},{5508,7056},{4506,7068},{4506,7056},{4500,7056},{4644,7056},{4482,7068},{21323,0},{21320,0},{21329,0},{21332,0},{21324,6447},{21338,0},{5508,7068},{4506,7075},{4497,7075},{21335,0},{4272,7056},{21341,0},{4647,7056},{4644,7068},{5529,7056},{20737,7114},{4644,7075},{4647,7068},{5529,7068},{21350,0},{21353,0},{21356,0},{2838,7068},{5520,7056},{21344,0},{4887,7056},{4500,7068},{2838,7056},{4272,7068},{21357,5756},{21362,0},{5508,7075},{4887,7068},{4482,7075},{5529,7075},{21366,5098},{4647,7075},{5790,7068},{4272,7075},{5520,7068},{8778,7075},{6549,7075},{4500,7075},{5520,7075},{2838,7075},{20203,7131},{21386,0},{21402,5127},{4887,7075},{5790,7075},{21395,0},{21429,5787},{21426,5424},{21432,3924},{21394,7145},{21437,0},{4482,7137},{21440,0},{21446,0},{4500,7137},{21455,0},{4272,7137},{2838,7137},{4644,7137},{4647,7137},{18525,7153},{21458,0},{5796,7137},{5529,7137},{4887,7137},{5520,7137},{4497,7137},{21468,5184},{21471,1961},{4506,7137},{21464,0},{4656,7137},{21098,0},{21477,6755},{21096,6522},{6837,7137},{8778,7137},{21100,7032},{21480,6343},{21101,0},{6549,7137},{21593,0},{21483,5545},{21488,0},{21491,0},{5790,7137},{21494,0},{21501,5209},{21498,5818},{21507,5211},{21506,0},{21426,4656},{21459,6163},{21510,5822},{6837,7075},{6549,7068},{5790,7056},{21516,5826},{21059,0},{4656,7075},{21521,0},{6837,7056},{5796,7075},{4656,7068},{4656,7056},{6837,7068},{5796,7068},{21524,0},{21530,0},{6552,7027},{8778,7056},{21527,0},{6549,7056},{8778,7068},{21551,0},{21536,0},{21554,0},{21545,0},{21539,0},{21548,0},{18606,7188},{5796,7056},{21555,5231},{21558,6983},{20970,7189},{21071,0},{21585,6998},{21003,7196},{21084,7029},{3888,7027},{21572,0},{21599,0},{21602,0},{20418,7203},{19879,7204},{21614,0},{21608,0},{21600,6509},{21617,0},{21620,0},{21623,0},{21627,7201},{18717,7210},{21636,6242},{18534,7372},{4497,7367},{21079,7221},{3229,7217},{5790,7373},{22296,6495},{18222,7225},{21696,2274},{22317,7000},{18228,7225},{21657,7024},{21665,0},{21686,0},{21687,7035},{21693,7039},{21690,6834},{4509,7232},{3148,7234},{21708,6842},{4530,7232},{4650,7232},{21720,7239},{19959,7236},{3040,7242},{4641,7232},{20020,7246},{21729,7244},{21737,0},{21740,0},{21765,2624},{21760,7066},{3112,7256},{21771,6877},{21776,0},{21782,0},{21759,7262},{21783,7075},{21791,0},{21792,6886},{21804,6889},{21798,4486},{21204,7261},{21784,6884},{21801,7238},{21822,6895},{21818,0},{21812,0},{21848,0},{21845,0},{21831,6896},{21840,7278},{21190,7246},{21857,0},{21861,5747},{21864,6908},{21869,0},{21860,0},{21873,7290},{21890,0},{21876,5474},{21882,7295},{21896,0},{21893,0},{21880,7285},{5508,7261},{21905,0},{21908,0},{21911,0},{4497,7261},{21899,0},{21914,0},{21920,0},{4506,7261},{21917,0},{21924,7307},{21933,6311},{21941,0},{21944,0},{21947,0},{4647,7261},{4644,7261},{21953,0},{21974,0},{21962,0},{21959,0},{4272,7261},{21965,0},{21977,0},{21971,0},{21968,0},{4482,7261},{21992,0},{21989,0},{20736,7331},{22001,0},{21998,0},{4500,7261},{22004,0},{22008,5488},{22007,0},{22022,0},{22019,0},{22016,0},{22025,0},{21343,7342},{5529,7261},{22028,0},{22031,0},{6549,7261},{21662,0},{2838,7261},{22040,0},{22037,0},{22043,0},{22034,0},{5790,7261},{20203,7342},{22046,0},{4887,7261},{5520,7261},{22049,0},
{22052,0},{22055,0},{22058,0},{22064,0},{22067,0},{22070,0},{20202,7357},{21821,0},{21412,7223},{21671,0},{22077,5471},{22074,5521},{22080,3928},{22071,7362},{4644,7353},{4887,7353},{22091,0},{5508,7215},{4497,7353},{5796,7353},{4272,7353},{4647,7353},{22100,0},{2838,7353},{21644,0},{5520,7353},{4506,7353},{21646,7151},{22102,7152},{22106,0},{5529,7353},{22109,0},{22112,0},{4656,7353},{6837,7353},{22101,7373},{21645,7367},{22115,0},{22124,0},{4644,7215},{22127,0},{4272,7215},{22130,0},{22133,0},{5508,7353},{8778,7353},{4482,7215},{22120,7154},{22136,0},{4506,7373},{4497,7382},{22119,7382},{5508,7367},{22140,3051},{22145,0},{4644,7367},{4647,7215},{4500,7215},{4482,7367},{6549,7353},{2838,7215},{4272,7367},{22147,7032},{22151,0},{21765,3504},{4887,7215},{4482,7373},{4272,7373},{4500,7367},{2838,7367},{5520,7215},{22163,0},{22157,0},{4647,7367},{19026,7386},{4644,7373},{22146,7384},{5529,7215},{5790,7353},{5520,7373},{2838,7382},{2838,7373},{5796,7215},{4272,7384},{5520,7367},{4272,7382},{22166,0},{4644,7382},{4647,7373},{4887,7367},{4500,7373},{4482,7382},{5529,7367},{4656,7215},{5796,7367},{22170,5192},{22178,0},{2838,7384},{5508,7382},{4272,7391},{5520,7382},{4497,7391},{4506,7384},{5508,7384},{4506,7391},{4497,7393},{4272,7393},{5520,7384},{5529,7373},{4647,7382},{4644,7384},{2838,7391},{4482,7384},{4500,7382},{4887,7373},{6549,7373},{8778,7382},{5790,7367},{8778,7367},{6549,7215},{5520,7391},{5508,7391},{22186,7394},{2838,7393},{4506,7393},{22182,7395},{22184,0},{8778,7391},{5790,7382},{6549,7384},{6837,7393},{5790,7384},{8778,7393},{6549,7391},{4656,7367},{22193,0},{5796,7373},{6837,7215},{5790,7391},{8778,7215},{4887,7382},{4500,7384},{5796,7382},{4656,7373},{4482,7391},{6837,7367},{6549,7393},{5508,7393},{4500,7391},{4482,7393},{4887,7384},{22195,7165},{22197,5210},{22200,5555},{22205,0},{6837,7373},{4656,7382},{5796,7384},{5790,7393},{21492,7226},{4887,7391},{22209,5022},{4500,7393},{22215,5214},{22212,6002},{4887,7393},{22195,7401},{22203,7398},{5796,7391},{6837,7382},{4656,7384},{4647,7384},{5529,7382},{4644,7391},{21666,7225},{4656,7391},{6837,7384},{5796,7393},{5520,7393},{8778,7261},{22220,0},{22226,0},{22223,0},{5508,7373},{4506,7382},{6837,7391},{4497,7384},{21675,5294},{5796,7261},{6837,7261},{21675,5633},{4656,7261},{4656,7393},{8772,7232},{22236,6971},{22253,0},{22247,0},{22235,0},{21079,7409},{22229,0},{22244,0},{22241,0},{22227,7410},{5529,7393},{22250,0},{22256,0},{8778,7384},{6549,7382},{6549,7367},{8778,7373},{4500,7353},{22263,7225},{22260,6980},{5529,7391},{21663,7026},{4644,7393},{4647,7391},{22268,0},{22277,0},{4647,7393},{22278,7431},{22274,0},{4497,7373},{4506,7367},{4497,7215},{4482,7353},{5790,7215},{22281,6984},{21081,7225},{22284,6989},{21656,0},{22311,6997},{21683,0},{22301,0},{5529,7384},{4506,7215},{22323,7225},{20406,7443},{19884,7444},{19878,7447},{22337,0},{19890,7448},{22340,0},{22364,0},{22367,0},{4482,7565},{22664,0},{22305,7804},{23411,0},{22547,0},{22326,7810},{22383,4801},{23402,0},{23399,0},{22379,0},{23390,0},{4506,7586},{22593,5755},{22391,0},{23405,0},{22398,7467},{23438,0},{22373,0},{20466,7468},{22409,0},{21699,7471},{22349,0},{22412,0},{22418,0},{22421,0},{22422,7238},{22427,0},{22436,0},{22430,0},{22439,0},{21774,7483},{22442,0},{22445,0},{22446,7483},{22463,0},{22378,7020},{22460,0},{22455,2293},{22452,7253},{22438,7064},{22462,7078},{20019,7484},{22478,0},{21190,7066},{23595,7484},{21190,7866},{22475,0},{22485,6892},{22493,0},{21828,7500},{22503,7275},{22420,7044},{22424,0},{22509,7042},{21849,7505},{22496,0},{21879,7508},{22537,7099},{22529,0},{20170,7509},{22536,7293},{22543,7515},{22551,7300},{22554,6912},{22524,7518},{22525,7297},{22574,0},{22566,7521},{22575,7309},{22555,6727},{22562,0},{22587,7316},{22586,0},{22581,7526},{22610,0},{22607,0},{22611,7326},{22617,7540},{22625,0},{22640,0},{22559,0},{22649,0},{22658,0},{22665,7553},{5796,7514},{22685,0},{4644,7514},{21993,7562},{4656,7514},{5529,7514},{21375,7563},{22700,0},{22694,0},{4497,7514},{22715,0},{21390,7573},
{22696,7128},{22718,0},{4647,7514},{22724,0},{20202,7562},{22727,0},{21396,7576},{4506,7514},{6837,7514},{4482,7514},{22695,7353},{21405,7578},{4272,7514},{5508,7514},{22740,7353},{22741,7128},{22740,7137},{4644,7565},{5520,7514},{22751,0},{2838,7514},{22741,6939},{22757,0},{8778,7514},{21411,7586},{4500,7514},{22761,5525},{22764,5156},{5796,7565},{4647,7565},{4500,7580},{6549,7514},{22775,0},{20232,7589},{22772,0},{22778,0},{4497,7565},{4272,7565},{4506,7565},{4656,7565},{2838,7565},{22787,0},{4644,7580},{22793,0},{4887,7580},{4482,7586},{5790,7514},{22790,0},{5529,7565},{22796,0},{5520,7565},{4272,7580},{2838,7580},{5520,7580},{4272,7586},{4497,7580},{5508,7565},{22808,0},{4647,7580},{22802,0},{4644,7586},{5529,7580},{22817,0},{22823,0},{22814,0},{22811,0},{6837,7565},{5796,7580},{4656,7580},{22832,0},{4647,7586},{5529,7586},{22835,0},{22841,0},{22838,0},{22370,0},{8778,7565},{21643,7456},{4500,7586},{2838,7586},{22850,0},{5520,7586},{22856,0},{6549,7565},{4887,7586},{4506,7580},{22865,0},{22868,0},{22874,0},{22871,0},{4497,7586},{5508,7580},{22369,6519},{5790,7565},{5796,7586},{6837,7580},{22883,0},{22886,0},{22880,0},{22889,0},{22890,4677},{8778,7580},{22907,0},{22904,0},{22910,0},{22898,0},{22901,0},{22913,0},{22916,0},{22919,0},{4656,7586},{22923,3379},{22940,0},{22934,0},{22931,0},{22937,0},{22928,0},{22943,0},{6549,7580},{6837,7586},{22967,0},{22979,0},{22961,0},{22955,0},{22973,0},{22976,0},{22982,0},{22985,0},{22970,0},{22988,0},{22958,0},{22964,0},{22952,0},{5790,7580},{23000,0},{23003,0},{23006,0},{22994,0},{23009,0},{22997,0},{8778,7586},{23015,0},{23012,0},{23018,0},{23033,0},{23039,0},{23036,0},{23027,0},{23030,0},{23024,0},{23042,0},{23045,0},{23048,0},{23060,0},{23063,0},{23057,0},{23054,0},{23051,0},{23066,0},{23072,0},{23069,0},{23075,0},{23090,0},{23078,0},{23081,0},{23084,0},{23087,0},{23093,0},{23096,0},{23102,0},{23108,0},{23105,0},{23114,0},{6549,7586},{23117,0},{23120,0},{23129,0},{23132,0},{23126,0},{23123,0},{23144,0},{23141,0},{23135,0},{5790,7586},{23150,0},{23147,0},{23162,0},{23168,0},{23159,0},{23171,0},{23156,0},{23165,0},{23153,0},{23174,0},{23183,0},{23180,0},{23177,0},{22207,7729},{23194,7729},{23191,7434},{23189,0},{23201,0},{23198,0},{23204,0},{23187,7731},{17463,7738},{23210,0},{23207,0},{23213,0},{23219,0},{23222,0},{23223,5559},{23228,0},{23240,0},{23234,0},{23243,0},{23237,0},{23246,0},{23252,0},{23249,0},{23267,0},{23261,0},{21679,7466},{22400,0},{23264,0},{23258,0},{23270,0},{23282,0},{23285,0},{23291,0},{23288,0},{23297,0},{23300,0},{23306,0},{23309,0},{21540,7774},{4482,7580},{23342,0},{20910,7776},{23339,0},{23346,7781},{23312,0},{23313,7419},{23372,0},{23382,7429},{4887,7565},{5508,7586},{22695,1500},{23255,0},{23375,0},{23354,0},{23351,0},{23363,0},{23360,0},{23357,0},{23381,0},{23378,0},{4887,7514},{23424,7438},{23435,0},{22784,0},{22386,6076},{22302,7730},{23408,0},{22382,0},{23329,7019},{23385,7798},{23444,0},{23447,0},{23456,0},{23448,7451},{23457,7451},{22347,7817},{20436,7821},{24389,0},{24385,8129},{3040,7871},{24424,7221},{23486,0},{22231,7828},{21060,7831},{24542,0},{23837,0},{24527,0},{23490,7829},{23513,0},{23523,6839},{21705,7844},{23524,6839},{3148,7842},{23535,6846},{21132,7846},{22356,7819},{23543,0},{23544,6863},{23550,6868},{23450,0},{21192,7851},{23558,0},{23559,6879},{23577,3722},{23580,7858},{21234,7856},{23591,0},{23585,0},{23588,0},{23573,0},{22494,7864},{22506,7870},{3112,7876},{22521,7858},{20479,7875},{23621,0},{23639,0},{23641,7296},{23645,0},{23636,0},{23582,0},{23648,0},{23651,0},{22542,7826},{23640,7514},{23663,0},{23652,7523},{23660,0},{23657,0},{20169,7880},{23676,7115},{23675,0},{23667,7888},{23479,7834},{22602,7894},{23688,7538},{22632,7897},{23504,0},{23703,7550},{4497,7880},{23700,7548},{4644,7880},{22668,7904},{23470,7220},{4656,7880},{4647,7880},{5796,7826},{6837,7880},{23720,0},{23726,0},{4647,7826},{23729,0},{23732,0},{23469,7565},{4506,7880},{22704,7913},{23747,0},{22707,7914},{23735,0},{4272,7880},{5529,7880},{4644,7826},{5529,7826},
{23756,0},{23762,0},{4644,7823},{4656,7826},{4497,7826},{4500,7880},{23768,0},{5508,7880},{4482,7880},{2838,7880},{23783,0},{8778,7880},{23786,0},{23777,0},{23780,0},{23757,7579},{23792,0},{4506,7826},{4647,7823},{23795,0},{23801,0},{5520,7880},{4272,7826},{2838,7826},{23804,0},{23798,0},{23807,0},{23816,0},{6837,7826},{5796,7823},{23810,0},{4497,7823},{6549,7880},{5508,7826},{23825,0},{23819,0},{4887,7880},{4482,7826},{23831,0},{23828,0},{4656,7823},{5529,7823},{5520,7826},{4272,7823},{23840,0},{8778,7826},{5790,7880},{23843,0},{23832,5158},{22759,7945},{23849,0},{23855,0},{23846,0},{4506,7823},{2838,7823},{3229,8176},{5508,7823},{24507,8168},{23864,0},{23867,0},{5520,7823},{23870,0},{6837,7823},{23853,7148},{23876,0},{6549,7826},{23873,0},{23900,0},{23888,0},{23882,0},{23894,0},{23891,0},{23912,0},{23906,0},{23909,0},{23915,0},{23918,0},{23930,0},{23924,0},{23921,0},{23939,0},{5790,7826},{23946,7980},{8778,7823},{23954,0},{23936,0},{23957,0},{23960,0},{6549,7823},{23966,0},{23984,0},{23990,0},{23973,7992},{23979,7601},{23969,0},{23999,0},{5790,7823},{23993,0},{24011,0},{24005,0},{24008,0},{24026,0},{20265,7993},{24029,0},{24042,8016},{24035,0},{24059,0},{24038,0},{20271,8018},{24041,0},{24060,8021},{24069,8024},{24078,8025},{24086,0},{20274,8029},{24096,8033},{24110,0},{24113,0},{24093,8030},{24144,8050},{24132,8042},{21477,8041},{24141,8043},{24162,8053},{24176,0},{24155,0},{24165,8057},{24177,8060},{24198,8067},{24192,8063},{24207,8070},{24228,8075},{24216,8071},{24252,8080},{24234,8077},{24246,8081},{24275,0},{24270,8093},{24285,8094},{24297,8100},{24305,0},{24327,8108},{24318,8104},{24342,8113},{24347,0},{22206,8118},{24353,0},{24368,0},{24363,8119},{24369,6606},{24387,8128},{24402,8133},{5796,7880},{24408,8135},{21495,8141},{24429,8142},{4482,7823},{4887,7826},{24432,7759},{24441,8146},{24447,7773},{23331,8151},{23505,7464},{24470,0},{4887,7823},{24464,0},{24477,6987},{23474,0},{4500,7826},{23501,0},{4500,7823},{23468,0},{24513,8172},{24494,0},{24497,0},{24491,0},{24499,1929},{23481,7216},{23517,7838},{24519,8174},{24555,7201},{24558,7450},{21624,8186},{24567,7452},{24572,0},{21048,8187},{24566,0},{4482,8252},{25340,0},{21057,8196},{24577,6607},{23484,8199},{4506,8200},{22308,8444},{24573,6641},{24614,0},{24623,0},{24617,0},{4530,8206},{21711,8208},{4650,8206},{4509,8206},{21741,8211},{21750,8211},{4641,8206},{21756,8213},{21753,8212},{24647,0},{24645,7259},{21795,8217},{24648,7490},{24660,7269},{25000,8198},{20118,8218},{24659,0},{24662,0},{24677,0},{24678,7864},{24584,0},{24683,0},{24622,8209},{24698,0},{22557,8234},{24716,0},{24719,0},{24734,0},{24726,8243},{24735,7533},{24746,0},{23478,8252},{24756,7823},{24757,7554},{24764,0},{24770,0},{24776,0},{24779,0},{24782,0},{4644,8252},{24788,0},{24785,0},{24809,0},{24806,0},{24797,0},{24830,0},{24824,0},{24827,0},{4647,8252},{24833,0},{5796,8252},{24842,0},{24857,0},{24860,0},{24851,0},{24845,0},{24848,0},{4497,8252},{24863,0},{5529,8252},{24869,0},{24887,0},{4272,8252},{24890,0},{24909,8302},{24902,0},{24899,0},{24905,0},{4656,8252},{4506,8252},{24920,0},{24923,0},{24929,0},{24935,0},{24932,0},{24947,0},{24894,8313},{6837,8252},{24944,0},{2838,8252},{24956,0},{24959,0},{24971,0},{23850,8325},{24974,0},{24978,5162},{24983,0},{24962,0},{24965,0},{5508,8252},{22758,8200},{5520,8252},{24593,0},{22779,8330},{24995,0},{24998,0},{25004,0},{25016,0},{23877,8339},{25022,0},{8778,8252},{24601,7149},{25031,0},{23883,8342},{23895,8344},{25041,7967},{25047,7599},{24600,7215},{22818,8350},{25062,7608},{25056,7977},{22827,8355},{25071,7983},{6549,8252},{4644,8200},{25092,7987},{5790,8252},{25089,7614},{4647,8200},{25079,0},{4482,8200},{25085,0},{4272,8200},{25100,0},{2838,8200},{22845,8365},{25115,0},{4500,8200},{25124,0},{24015,8377},{22875,8376},{25137,7631},{5529,8200},{4887,8200},{25142,0},{5520,8200},{25152,8022},{25155,7640},{5796,8200},{4656,8200},{25176,5191},{22989,8394},{6837,8200},{25160,0},{25206,7673},{5790,8200},{8778,8200},{6549,8200},{25271,0},{25283,0},{24384,8427},
{25286,0},{19821,8192},{18063,8193},{25292,0},{25298,0},{4500,8252},{6822,8206},{25307,0},{25304,0},{24589,8180},{8772,8206},{4497,8200},{4887,8252},{25346,0},{25001,0},{24543,8452},{25328,0},{3880,8440},{5508,8200},{25329,8170},{25376,0},{25380,7817},{25377,7817},{21633,8464},{25391,0},{25383,8462},{25397,0},{25403,0},{24594,8641},{25910,0},{25409,0},{25938,8453},{25412,0},{25919,0},{25887,8468},{25416,6643},{25382,0},{20541,8473},{25430,0},{24627,8474},{25425,7241},{3148,8477},{25439,0},{25436,0},{25445,0},{3103,8483},{25448,0},{3040,8484},{25460,0},{25455,7021},{25464,7493},{3112,8487},{23460,8464},{25426,7241},{25469,0},{23601,8492},{21787,8491},{23604,8492},{25479,7025},{25472,0},{25475,0},{25482,7504},{22537,8491},{25485,7511},{25502,0},{25497,8237},{25496,0},{25506,8501},{25514,0},{25526,0},{25523,0},{25530,7123},{25533,7124},{24789,8513},{25529,0},{25551,8267},{24792,8514},{25547,0},{24813,8518},{25574,0},{25563,8279},{25566,7133},{25580,0},{25596,8291},{25587,7136},{24864,8530},{25608,7140},{25601,0},{24882,8534},{25607,0},{24912,8539},{25616,0},{25622,0},{25623,8305},{25634,0},{25637,0},{24936,8550},{25661,0},{25653,8316},{24966,8556},{25667,0},{25685,0},{25674,8328},{21436,8561},{25697,0},{25703,0},{25700,0},{25008,8570},{25011,8571},{25656,7940},{25730,0},{25733,0},{25684,7214},{25751,0},{25769,0},{25772,0},{25778,0},{25790,0},{25784,0},{25802,0},{25796,0},{25104,8599},{25811,0},{25826,0},{25829,0},{25835,0},{25844,0},{25847,0},{25850,0},{25856,0},{25865,0},{25868,0},{25871,0},{23220,8625},{25880,0},{25284,8468},{25886,0},{25876,7740},{24579,8468},{25890,7171},{25901,0},{25898,0},{25415,0},{20385,8644},{25913,0},{25916,0},{25347,8640},{25933,6795},{25926,8643},{25937,0},{21039,8647},{22359,8649},{25946,0},{25950,7820},{26322,8655},{26316,8447},{25368,8776},{23529,8663},{22359,8651},{25994,0},{25949,0},{21145,8664},{25995,7052},{26003,0},{21154,8666},{26006,0},{25998,7254},{26010,7065},{26007,7067},{26013,7854},{26018,0},{26019,7076},{26024,0},{26030,0},{26022,8675},{26036,0},{26034,8681},{26048,0},{26051,0},{26057,0},{25966,8774},{26066,0},{21786,8687},{26069,0},{22536,8687},{26073,8240},{26078,0},{26082,8503},{26085,7545},{25527,8696},{26091,8696},{26112,8520},{25581,8706},{26127,8531},{26142,8537},{26154,8543},{26157,7940},{25641,8721},{25644,8722},{25692,8727},{22086,8728},{26208,8562},{26211,8578},{26184,7601},{25791,8741},{26226,8367},{23994,8745},{26232,8369},{24000,8746},{26241,8375},{24021,8749},{26259,8391},{24117,8754},{26266,8386},{25158,8755},{26274,8414},{24306,8759},{26282,0},{24579,8761},{26288,0},{26292,8193},{25905,8768},{26301,7177},{22320,8771},{25959,8466},{26312,0},{23508,8659},{24537,8661},{25983,7465},{26333,0},{25956,8779},{26334,8651},{26342,0},{26345,0},{26552,0},{26559,8451},{26562,345},{26354,0},{26357,0},{22431,8786},{4530,8788},{24630,8787},{26367,7062},{26375,0},{21720,8786},{23547,8790},{4509,8788},{26381,0},{21216,8794},{21219,8795},{4650,8788},{21243,8798},{21777,8799},{26391,7079},{26405,0},{26406,7269},{26391,7091},{4641,8788},{26411,0},{26412,8805},{26429,0},{26424,7511},{26430,8231},{26435,0},{26082,8813},{26005,8791},{26436,8246},{26447,0},{26450,0},{26471,0},{26483,0},{26492,0},{26484,8738},{26525,0},{26535,8468},{26532,8627},{26538,8763},{6822,8788},{8772,8788},{21561,8849},{25947,8856},{26576,0},{24573,8859},{26556,8860},{25416,8859},{26592,7817},{26331,8865},{26603,0},{26600,0},{26615,0},{26376,8870},{3040,8869},{25440,8872},{26621,0},{3103,8875},{3148,8876},{26618,0},{3112,8878},{26639,0},{26633,0},{20145,8880},{26654,0},{26651,0},{26648,0},{26655,8806},{26666,0},{26670,8236},{26679,7545},{26675,0},{26682,7903},{26685,8512},{26688,8317},{26714,0},{26706,8763},{26717,0},{3229,8906},{26723,0},{26729,0},{26732,0},{26735,0},{26738,0},{26741,0},{22446,8915},{26742,6876},{26759,0},{26753,0},{26748,7243},{26756,0},{23565,8915},{26760,6885},{23584,8922},{26765,0},{26768,0},{22497,8923},{23607,8926},{26783,0},{26774,0},{26769,7267},{26763,7862},{26784,6909},{26770,7267},
{26796,8233},{26799,8234},{26805,8506},{26816,0},{26817,6977},{26823,6991},{26827,7227},{26828,0},{26571,8943},{26832,7213},{26835,8974},{23418,8973},{26925,7809},{23520,8946},{26604,8947},{24630,8947},{25947,8948},{26849,0},{26841,7452},{26850,7488},{26622,8952},{23572,8954},{21142,8953},{26388,8951},{26868,7494},{26867,0},{24666,8959},{24669,8958},{26882,0},{24672,8954},{26731,8974},{26894,0},{3103,8961},{23620,8963},{22530,8966},{26897,0},{24690,8963},{26913,8562},{23367,8972},{26928,8908},{3229,9006},{26936,0},{26942,0},{26956,7489},{26945,0},{26948,0},{26739,8983},{26954,0},{3040,8987},{26975,0},{26966,0},{26969,0},{4530,8990},{3148,8992},{26031,8993},{26984,0},{4509,8990},{26987,0},{26955,7489},{26988,7247},{27001,8220},{25464,8993},{4650,8990},{27005,0},{27000,8930},{26996,0},{26997,7874},{4641,8990},{3112,9002},{27014,0},{27002,0},{26993,0},{27017,0},{6822,8990},{8772,8990},{26939,0},{27021,8191},{27030,9009},{24660,9038},{27036,6643},{25986,9007},{27023,0},{27044,0},{27039,8214},{26958,9015},{27050,0},{4530,9011},{27057,8800},{27062,0},{26871,9018},{24663,9017},{25416,9007},{27068,0},{27065,0},{27063,8925},{27074,0},{26886,9025},{27080,0},{27081,8211},{21136,9034},{27092,0},{27086,0},{27098,0},{26793,9031},{27089,0},{4509,9011},{4641,9011},{27107,0},{27110,0},{27084,8227},{4650,9011},{27055,8957},{27025,7824},{27120,8733},{8772,9011},{27125,0},{27128,0},{6822,9011},{27026,0},{27134,0},{26037,9049},{27136,9080},{25456,9061},{27258,8445},{24645,9061},{27137,0},{27143,0},{27146,0},{26340,9049},{27153,9050},{22339,9052},{25471,9053},{27164,0},{27165,8881},{27173,0},{27168,6897},{27179,0},{26052,9058},{24678,9060},{27188,0},{26058,9053},{27192,8929},{27176,0},{27189,6906},{22444,9066},{27195,7483},{26070,9060},{27139,7025},{27213,9070},{25485,9060},{27204,6910},{27216,7502},{25491,9069},{27221,0},{27224,0},{27225,6914},{25495,9076},{27233,0},{27236,0},{27138,7269},{26079,9076},{27239,0},{27245,0},{27248,0},{27252,6988},{24480,9083},{27257,0},{26931,9087},{27265,7015},{27279,9080},{3229,9133},{27282,6823},{27290,0},{21619,9097},{27296,0},{27299,0},{27300,7279},{27294,6647},{27294,6653},{27069,9102},{27317,0},{26943,9104},{27309,7506},{27320,0},{27326,0},{27271,8194},{27272,0},{24684,9110},{22539,9111},{27329,0},{27277,7021},{27330,7507},{21781,9113},{22548,9118},{27362,0},{27347,0},{27350,0},{27344,0},{21790,9119},{27353,0},{27363,7310},{27276,7259},{27346,8802},{27303,9107},{27366,7318},{27374,0},{22590,9123},{27331,7507},{27383,0},{27378,7327},{27386,0},{27269,0},{27390,8738},{27393,7430},{27402,8455},{27275,0},{23391,9132},{19552,9135},{27410,0},{27413,0},{3880,9182},{27415,8471},{27417,9095},{27420,7821},{27425,0},{27426,7236},{27303,9143},{27432,7872},{27438,9141},{26991,9143},{26658,9148},{3040,9150},{19585,9149},{27443,0},{27453,7877},{27462,8496},{27467,0},{27475,8674},{3148,9156},{27471,9003},{27479,0},{4530,9160},{4509,9160},{27476,0},{27454,7877},{4509,9166},{26064,9167},{3103,9161},{26904,9165},{27111,9164},{27489,8802},{4641,9160},{27512,0},{4641,9166},{23670,9168},{27509,0},{27515,0},{4650,9166},{23679,9172},{3112,9174},{4530,9166},{4650,9160},{23694,9177},{27423,9098},{27554,0},{8772,9160},{27542,0},{8772,9166},{6822,9166},{6822,9160},{27416,0},{24486,9181},{27602,0},{27574,6812},{27549,9187},{27565,8850},{27701,0},{27572,0},{18787,9190},{21814,9191},{27424,9186},{27576,9186},{27593,0},{27590,0},{3040,9195},{27582,9107},{27598,8807},{27596,0},{27459,9201},{27608,0},{27611,0},{27623,0},{27612,7868},{27619,9205},{27599,0},{27633,8799},{27620,0},{27629,0},{4509,9212},{27632,0},{27624,8235},{27647,0},{4641,9212},{27644,0},{27650,0},{27656,0},{27641,0},{27653,0},{27659,0},{27672,9039},{3148,9222},{27665,0},{27677,0},{27686,0},{27683,0},{27682,8892},{3112,9226},{27689,0},{4530,9212},{3103,9230},{27510,9215},{27604,9153},{8772,9212},{4650,9212},{27652,9124},{27294,9186},{27693,6647},{27693,6655},{27558,7584},{27693,7236},{27693,6842},{25023,9186},{24988,9186},{23853,9186},{27693,7484},{27693,6673},{27702,8740},
{27693,7253},{27693,7262},{27693,8687},{27693,7512},{27693,7293},{27693,7508},{27693,7518},{27693,6912},{27693,7562},{27693,6734},{27693,7331},{27693,7357},{27693,7362},{27693,7601},{27693,7993},{27693,8728},{27693,6755},{27693,7159},{27693,8041},{27707,0},{6822,9212},{27710,0},{27713,0},{27719,0},{27564,8861},{27714,8769},{27566,0},{27556,9240},{27724,9186},{27725,0},{27853,9129},{27728,0},{27989,0},{27992,0},{27993,8850},{19218,9245},{18786,9245},{27740,0},{27739,9240},{27742,9088},{27746,0},{27744,9142},{27435,9249},{27761,0},{27757,9033},{27456,9250},{27770,0},{27764,0},{26661,9255},{27758,0},{27771,7864},{27785,0},{27786,8807},{27777,9162},{27780,8492},{27800,0},{22459,9268},{27795,7312},{27791,0},{27792,9205},{24723,9267},{27807,9220},{27819,9001},{27813,7511},{25509,9272},{27519,9275},{24741,9274},{27812,0},{27837,7542},{27828,7328},{26442,9272},{27836,0},{27298,9277},{27846,8892},{27851,0},{27840,7547},{27854,0},{27843,7551},{27568,9242},{27860,0},{27866,0},{27855,7337},{27863,0},{27875,0},{27872,0},{27878,0},{27879,9192},{27887,0},{27884,0},{27888,6942},{27893,0},{27896,0},{27905,0},{27911,0},{27899,0},{27908,0},{27914,0},{27917,0},{21466,9240},{27920,0},{27720,7155},{27923,0},{27926,0},{27929,0},{27932,0},{27935,0},{27938,0},{27947,0},{27941,0},{27944,0},{27950,0},{27953,0},{27956,0},{27965,0},{27962,0},{27959,0},{27968,0},{27971,0},{27972,7758},{27977,0},{27978,7778},{27981,7423},{27732,7224},{27998,0},{27556,9334},{28001,0},{25308,9423},{24552,9427},{27567,9336},{28022,0},{28025,0},{28031,0},{27996,9333},{28029,6712},{28038,8680},{28032,6712},{27999,6832},{27579,9345},{28043,0},{28049,0},{28050,9348},{27774,9351},{28061,0},{28062,9033},{21844,9355},{28076,0},{26050,9359},{28080,7532},{27669,9363},{3148,9365},{28094,0},{23685,9362},{28100,0},{23644,9368},{28101,9176},{28073,0},{28116,7543},{3148,9371},{28109,0},{28112,0},{28127,0},{23697,9374},{24750,9373},{24759,9382},{28143,9079},{26068,9353},{24765,9380},{28134,9335},{28137,9335},{28151,0},{23715,9386},{28152,7557},{28164,7567},{28167,7570},{28035,9142},{28038,8229},{28173,6655},{28173,6832},{28038,7284},{28032,6712},{28038,8967},{28173,6653},{28173,7236},{28038,9067},{28173,6673},{28038,9175},{28173,6842},{28191,7365},{28038,9112},{28038,9361},{25080,9401},{28173,7484},{28173,7253},{28217,0},{28173,7262},{28173,8687},{28173,7512},{25158,9405},{28173,7293},{28173,7508},{28173,8041},{28173,7518},{28173,7562},{28173,6912},{28173,7331},{28173,6734},{28173,7357},{28173,8728},{28173,7362},{28173,7601},{28173,7993},{28173,6755},{28173,7159},{28272,7772},{28136,0},{25314,9425},{24474,9426},{28014,9337},{28019,0},{28284,9333},{28289,0},{3040,9456},{28298,0},{3229,9520},{28301,0},{3229,9521},{24816,9478},{19980,9434},{28305,6430},{28284,9429},{20496,9430},{28311,6647},{28284,9430},{28316,0},{28322,0},{28323,9332},{28319,0},{28328,0},{28311,6653},{28056,9444},{28337,0},{28340,0},{26667,9447},{4509,9449},{28346,0},{28071,9444},{28311,6842},{28311,7236},{27763,9445},{28350,9125},{26430,9447},{26968,9453},{24747,9452},{28364,0},{4509,9458},{27534,9464},{24753,9461},{28379,0},{28389,8499},{28388,0},{28311,6673},{3112,9467},{3112,9466},{26910,9465},{26076,9463},{4641,9458},{28390,8499},{3040,9468},{28409,0},{3103,9471},{28418,0},{4641,9449},{24771,9476},{3103,9475},{8772,9449},{4530,9449},{28311,7484},{28311,7253},{4650,9449},{24810,9477},{4650,9458},{4530,9458},{28437,6653},{8772,9458},{28437,6647},{28311,7262},{27601,9484},{28451,0},{28448,0},{28445,0},{28442,0},{28311,6655},{28311,8687},{28437,6842},{28460,0},{28457,0},{28311,7512},{28311,7293},{28311,7508},{28437,6673},{28463,0},{28466,0},{28311,7331},{28311,7518},{28311,7562},{28437,7253},{28437,7484},{28478,0},{28475,0},{28472,0},{28481,0},{28469,0},{28311,6734},{28311,6912},{28437,7262},{28484,0},{28487,0},{28490,0},{28311,7357},{28311,7362},{28437,8687},{28038,9451},{28493,0},{28495,8386},{28437,7512},{28038,9470},{28311,8728},{28437,7293},{28499,0},{28502,0},{28311,7601},{28437,7508},{28505,0},{28508,0},{28311,7159},
{28311,8041},{28311,7993},{28437,7518},{28437,6912},{28511,0},{28514,0},{28517,0},{28311,6755},{28437,7331},{28520,0},{28437,7357},{28437,7562},{28437,6734},{28529,0},{28523,0},{28526,0},{28437,7362},{28532,0},{28437,8728},{28535,0},{28437,7993},{28437,7601},{28437,6755},{28437,7159},{28547,0},{28541,0},{28544,0},{28538,0},{28437,8041},{28550,0},{6822,9458},{28553,0},{6822,9449},{28295,0},{25317,9518},{28575,9430},{28566,9529},{3229,9674},{28836,9399},{28591,8979},{28587,9338},{28585,9184},{28598,0},{17731,9533},{28572,7284},{28602,9535},{18340,9532},{28611,9429},{28572,6891},{28610,0},{27753,9541},{28626,9443},{28617,9200},{28572,8229},{28622,0},{28631,0},{28632,9545},{28643,0},{28638,9356},{28572,8967},{28572,8680},{28056,9545},{28646,0},{28652,0},{28655,0},{28664,0},{28661,0},{28667,0},{28658,0},{27268,9526},{28668,9376},{28132,9558},{3148,9557},{28580,0},{28669,9376},{28131,9558},{28691,0},{28682,0},{3112,9561},{28572,9067},{28686,9164},{28679,0},{28706,0},{28709,0},{28700,0},{28639,9356},{28703,0},{28712,0},{28697,0},{28692,9553},{28717,9474},{28725,9573},{6822,9571},{28724,0},{27850,9560},{28730,0},{4641,9571},{28718,0},{28736,0},{3040,9577},{4509,9571},{28739,0},{28572,9112},{28572,9175},{28748,0},{28745,0},{28742,0},{28757,0},{28595,0},{28751,0},{3103,9584},{4530,9571},{28760,0},{4650,9571},{28572,9361},{28766,0},{28769,0},{28763,0},{28572,9451},{28772,0},{28572,7273},{28773,9200},{28779,9392},{28782,9393},{28793,0},{28790,0},{28773,9200},{8772,9571},{27601,9591},{28796,0},{28797,9395},{28572,9470},{28586,0},{28808,0},{28805,0},{28811,0},{28814,0},{28815,9396},{28829,0},{28823,0},{28826,0},{28835,0},{28832,0},{28839,9398},{28848,9400},{28853,0},{28856,0},{28859,0},{28866,9402},{25110,9621},{28871,0},{28874,0},{28880,0},{28877,0},{28881,9404},{28895,0},{28892,0},{28889,0},{28899,9406},{28898,0},{28886,0},{28902,9407},{28910,0},{28907,0},{28911,9408},{28922,0},{28919,0},{28925,0},{28928,0},{28932,9409},{28931,0},{28935,9410},{28943,0},{28946,0},{28947,9411},{28952,0},{28958,0},{28955,0},{28959,9413},{28962,9414},{28965,9412},{28970,0},{28971,9415},{28976,0},{28977,9416},{28985,0},{28991,0},{28988,0},{28982,0},{28998,9420},{28992,9418},{29001,9417},{28995,9419},{29006,0},{29007,9421},{29012,0},{29018,0},{28592,0},{27868,9726},{29030,0},{18834,9682},{19266,9682},{29060,0},{29050,9342},{19659,9682},{29025,6655},{29025,6712},{29057,0},{29054,0},{29066,0},{29061,6655},{29025,6647},{28614,9686},{29073,9690},{29081,0},{29090,0},{29061,6653},{29025,7236},{29061,6647},{29025,6653},{29096,0},{26907,9697},{26799,9697},{29105,0},{25515,9702},{29102,0},{29099,0},{28387,9706},{29115,9457},{29121,8890},{29142,9711},{29025,6842},{27537,9713},{29130,9711},{29138,0},{29061,7236},{28419,9717},{29148,8502},{29156,0},{29160,9387},{29163,7558},{29147,0},{29159,0},{29181,7559},{26082,9723},{29176,9724},{29162,0},{29189,0},{26451,9722},{27730,9680},{29199,9734},{27867,9726},{29192,0},{29198,0},{29210,0},{27876,9738},{29175,9724},{29205,7907},{29211,9474},{26091,9722},{29222,0},{29025,6673},{29219,0},{29025,7484},{29132,0},{29204,0},{29061,6673},{29061,6842},{29231,0},{29223,7916},{29228,0},{29238,7921},{29252,0},{29241,7577},{29247,7923},{29255,0},{29261,0},{29025,7253},{29256,7581},{29061,7484},{29032,9239},{29025,6832},{29265,7582},{29061,7253},{29025,7262},{29264,0},{28776,9756},{28785,9757},{29061,6712},{29276,0},{29282,0},{29303,0},{28800,9769},{29025,8687},{29061,8687},{29025,7512},{29025,7293},{29061,7512},{29061,7262},{29315,0},{29316,9232},{29025,6912},{29025,7508},{29061,7518},{29025,7331},{29061,6912},{29061,7293},{28818,9776},{28845,9781},{28842,9782},{29036,0},{29025,7562},{29061,7331},{29061,7508},{29025,7518},{28860,9787},{29025,6734},{29025,7357},{29061,7562},{29061,6734},{29369,0},{29376,9793},{29061,7357},{29025,7362},{29388,9797},{29025,8728},{29061,7362},{29061,7993},{29025,6755},{29061,6755},{29025,7159},{29025,8041},{29025,7601},{29061,8728},{29061,8041},{29061,7159},{29025,7993},{29061,7601},{29505,7757},{29508,8150},
{28137,9717},{29033,0},{29511,9043},{29517,9523},{29043,9920},{29525,0},{29522,0},{29050,9842},{29531,0},{29534,0},{29529,9436},{29537,0},{29540,0},{29544,9689},{29552,0},{29082,9849},{29555,0},{27409,9853},{29565,9549},{29585,0},{29576,0},{29579,0},{28365,9860},{29573,0},{29570,0},{29589,9460},{3148,9864},{29588,0},{29133,9867},{23638,9869},{29606,0},{29621,0},{29145,9867},{29615,0},{29618,0},{29627,0},{26094,9880},{29639,0},{23650,9877},{29630,0},{29514,9885},{26097,9883},{29666,0},{27861,9886},{24745,9884},{29672,0},{29673,9885},{29218,9889},{29679,7126},{29699,0},{29696,0},{23736,9897},{29687,0},{29682,7127},{29720,0},{29711,0},{29705,0},{29723,0},{28722,9905},{29706,9889},{29700,7129},{23751,9909},{23772,9911},{29675,0},{23787,9914},{26124,9913},{29082,9849},{29745,7138},{29759,0},{29753,0},{26133,9918},{29748,7139},{29765,0},{29774,0},{29771,0},{29778,9762},{29781,9763},{29786,0},{26139,9922},{29793,7147},{29796,9770},{29804,0},{29813,0},{29807,0},{29816,0},{29810,0},{29801,0},{29841,9777},{29831,0},{29834,0},{29837,0},{29828,0},{29825,0},{29840,0},{29847,9784},{29844,9783},{29855,0},{29858,0},{29861,0},{29864,0},{29865,9788},{29870,0},{29881,8006},{29876,0},{29879,0},{29873,0},{29880,8006},{29883,9794},{29891,0},{29888,0},{29892,9798},{29897,0},{29900,0},{29912,0},{29906,0},{29909,0},{25858,9842},{29903,0},{29526,8619},{29915,0},{29921,0},{29918,0},{29924,0},{29927,0},{29933,0},{29930,0},{26298,9978},{29690,0},{24459,9979},{29942,0},{29822,0},{29820,9920},{29943,9328},{29948,0},{3229,10106},{3229,10108},{30327,9519},{29193,10019},{29949,9679},{4530,10024},{29958,6429},{20046,9985},{29963,0},{29961,9343},{29970,6653},{29970,6712},{29970,6832},{22488,9989},{29970,6655},{29970,6647},{29541,9991},{29076,9992},{29562,9994},{29085,9996},{29994,9703},{29124,10001},{26802,9999},{30008,0},{29598,10004},{29970,7236},{29595,10000},{29112,10003},{28048,10005},{30022,7902},{30020,0},{30007,9714},{30030,9385},{30021,7902},{29130,10008},{29646,10015},{30033,9881},{29184,10013},{30038,0},{3148,10016},{6822,10018},{29970,6842},{4641,10024},{3112,10021},{29970,7484},{29970,6673},{30071,0},{26811,10022},{26100,10028},{28734,10025},{30083,0},{26109,10033},{30075,10032},{30087,8701},{4641,10018},{30088,8701},{3112,10031},{30119,0},{29232,10035},{29724,10034},{30116,0},{26115,10040},{26436,9999},{29730,10037},{29235,10036},{29970,7262},{4509,10018},{6822,10024},{29970,7253},{29970,7512},{30125,0},{3040,10042},{29970,8687},{3103,10044},{3103,10045},{4509,10024},{29950,9679},{30138,9992},{26136,10047},{4650,10024},{4650,10018},{26679,9999},{3040,10050},{29277,10049},{26145,10051},{29970,7518},{29970,7293},{29775,10048},{27409,10055},{30176,0},{29787,10054},{29292,10053},{29970,7508},{29295,10052},{27409,10056},{29790,10057},{4530,10018},{29970,6912},{28572,10009},{26169,10059},{8772,10018},{27409,10060},{29322,10066},{29817,10064},{29319,10063},{29325,10065},{29970,7331},{29970,7562},{8772,10024},{29340,10071},{27409,10067},{29334,10069},{29337,10072},{27409,10075},{27409,10074},{29355,10076},{29970,8728},{29970,6734},{29358,10079},{29970,7357},{27409,10080},{4509,10082},{29370,10081},{29373,10085},{30260,0},{29970,7362},{27409,10087},{28038,10009},{4650,10082},{29385,10088},{27409,10090},{29970,7601},{4641,10082},{4530,10082},{29409,10091},{29970,7993},{29970,6755},{30288,8061},{29418,10094},{30289,7672},{29415,10093},{29970,7159},{30296,0},{29421,10101},{8772,10082},{29970,8041},{29436,10105},{6822,10082},{30080,0},{30335,0},{30338,0},{30347,0},{30356,0},{3229,10162},{30359,0},{11023,10121},{16222,10120},{30366,9343},{30366,9988},{30369,6832},{30369,7236},{30369,6655},{30383,0},{30381,1323},{30380,0},{30377,0},{30374,0},{30369,6647},{30369,6653},{30386,0},{30390,9993},{30389,0},{29985,10131},{30399,10132},{30369,6842},{30404,0},{30423,10138},{30410,0},{30405,10140},{30419,0},{29142,10137},{29622,10142},{29610,10137},{30443,0},{30446,0},{30436,9878},{30440,0},{30428,0},{30369,6673},{30453,10149},{30467,0},{29142,10137},{30369,7253},
{30369,7484},{30353,0},{30437,0},{30464,0},{30461,0},{30485,0},{30476,0},{30479,0},{30473,0},{30470,0},{30489,9390},{29694,10164},{29676,10164},{4641,10169},{30512,0},{30506,0},{28006,10116},{3112,10165},{30503,0},{30369,7262},{30369,8687},{30530,0},{3148,10175},{30534,10177},{30369,7293},{30516,10173},{30548,0},{30571,10185},{30551,0},{30539,0},{30369,7512},{30545,0},{30542,0},{30560,0},{30352,9838},{30557,0},{27601,10191},{30569,0},{30563,0},{30566,0},{30587,0},{30369,7508},{30369,6912},{30584,0},{3040,10192},{30581,0},{6822,10169},{30591,10201},{30590,0},{30369,7518},{30602,0},{3103,10198},{4509,10169},{30599,0},{30620,0},{30621,10209},{28182,10202},{30615,10204},{30632,0},{30606,9768},{30626,0},{30369,7331},{4650,10169},{28572,10143},{30644,0},{30641,0},{30635,0},{30638,0},{30648,10217},{30369,6734},{30369,7562},{30647,0},{30668,0},{30665,0},{30662,0},{30674,0},{8772,10169},{30683,0},{30369,7357},{30686,0},{30369,7601},{30695,0},{30692,0},{30369,7362},{30701,0},{30704,0},{30707,0},{30369,8728},{24045,10238},{30719,0},{30722,0},{30725,0},{30728,0},{28038,10143},{30369,7993},{30743,0},{30737,0},{30740,0},{30369,7159},{30369,6755},{30734,0},{30752,0},{30749,0},{30369,8041},{30755,0},{30761,0},{30767,0},{30776,0},{30779,0},{30785,0},{4530,10169},{30346,9432},{30344,0},{30343,9431},{30789,10264},{30786,10107},{30802,9531},{30795,9527},{30339,10266},{27601,10364},{30812,0},{30811,9842},{30816,9436},{30813,6891},{30813,8680},{30821,0},{30813,7273},{30824,0},{30827,0},{30829,1324},{30833,0},{30813,7284},{30813,8229},{30845,0},{30848,0},{27601,10284},{30858,9997},{27601,10287},{30813,8967},{30903,9712},{30866,0},{30867,9709},{30868,9709},{27601,10292},{30882,10008},{26808,10291},{27601,10290},{30890,0},{30887,0},{30899,0},{30813,9067},{30051,10300},{30891,8234},{30894,9887},{30908,0},{30813,9175},{30813,9112},{27601,10303},{29137,10301},{30930,8516},{30927,9878},{30920,0},{30923,0},{30917,0},{30948,8273},{25557,10312},{30956,0},{30953,0},{30803,0},{29514,10308},{30962,0},{30975,8696},{30813,9361},{30813,9451},{30971,0},{30966,8523},{30813,10009},{30984,8242},{27601,10330},{30983,0},{30974,0},{30995,0},{30813,9470},{30980,0},{27601,10332},{31017,8528},{31013,0},{31004,0},{31014,8292},{30570,10342},{30989,0},{31025,0},{31031,0},{31030,9761},{30813,10143},{31032,8297},{25512,10347},{31050,8542},{31046,0},{31061,0},{31049,0},{31056,8308},{31079,0},{31070,0},{31055,0},{27601,10354},{27601,10362},{31091,0},{31076,0},{31095,8554},{31100,0},{31109,0},{31106,0},{31112,0},{31113,8560},{31122,10061},{27601,10375},{31130,0},{31133,0},{31137,8348},{31151,0},{31163,0},{31157,0},{31172,0},{31179,8017},{31184,0},{31187,0},{31194,9799},{31197,8045},{31202,0},{31205,0},{31206,8052},{31212,8056},{31217,0},{31220,0},{30768,10411},{31232,0},{31242,8083},{31248,8105},{31253,0},{31256,0},{30060,10308},{31257,9673},{30804,8201},{31274,0},{31277,0},{26553,10550},{31310,0},{30808,10427},{31286,0},{31287,6647},{31287,6712},{31292,0},{31295,0},{31301,0},{31302,10280},{31305,10278},{31287,6832},{31287,6655},{31316,0},{31320,10283},{31319,0},{31323,10285},{31328,0},{31330,9438},{28314,10443},{31334,0},{31287,6653},{31337,0},{31340,0},{31346,0},{31348,10144},{31341,10293},{31361,0},{31352,0},{31355,0},{31347,10144},{31358,0},{30450,10454},{30456,10455},{31287,7236},{31373,0},{31287,6673},{31287,6842},{30060,10456},{23662,10459},{31376,0},{31397,0},{31394,0},{31383,10304},{30078,10456},{29688,10456},{31391,0},{31388,0},{31403,0},{26106,10466},{31404,10313},{31407,10314},{31410,9904},{31418,0},{26454,10471},{31419,10171},{31287,7253},{31287,8687},{31287,7484},{31425,9748},{30522,10474},{31430,0},{31442,0},{24775,10478},{31439,0},{31443,9912},{31287,7262},{31451,0},{26121,10482},{31431,8525},{31470,10333},{31464,10335},{31469,0},{31475,0},{31457,0},{23674,10484},{31445,0},{31458,10336},{26460,10495},{26130,10492},{29044,10425},{31479,10340},{31287,7508},{31490,0},{31287,7512},{31494,10345},{31502,0},{29298,10499},{31287,7293},{26463,10502},{31505,0},{26466,10508},
{26160,10504},{31521,10360},{31515,10357},{31518,8546},{21967,10503},{31530,10361},{31538,0},{31527,8549},{31287,7518},{31280,0},{31500,10367},{31541,0},{26175,10516},{31560,10062},{31557,10373},{31554,8563},{30654,10522},{26187,10521},{31287,7331},{31287,6912},{31571,0},{31575,10381},{31572,10380},{26487,10526},{31581,8595},{31287,7562},{31287,7362},{31287,6734},{31584,10389},{31587,10388},{31590,10391},{31287,7357},{25146,10531},{31596,10396},{31600,8027},{31599,8027},{31602,9801},{31287,8728},{25200,10535},{31608,9802},{31287,7601},{31287,7993},{31611,10403},{31287,8041},{25203,10538},{25212,10539},{31287,6755},{31623,10409},{31620,10408},{31628,0},{31629,10413},{25239,10544},{31287,7159},{25260,10545},{31638,8634},{31646,0},{31649,0},{29952,10552},{3040,10657},{30808,10554},{31667,0},{31673,0},{31676,0},{31296,10559},{31312,10554},{31694,0},{31697,0},{31710,10571},{31718,0},{31724,0},{31728,10578},{30042,10577},{30456,10582},{31751,0},{31752,7560},{31763,0},{29602,10585},{31758,10460},{30480,10593},{31769,0},{31773,10308},{31772,0},{31793,0},{31796,0},{3229,10602},{29134,10605},{3112,10607},{31818,8278},{31835,0},{31829,0},{31832,0},{31842,10043},{31859,0},{3112,10621},{4641,10616},{26457,10622},{31856,0},{29250,10629},{3148,10632},{30813,10628},{3229,10631},{31901,0},{31916,0},{31907,0},{31913,0},{30813,10592},{3148,10642},{31819,8278},{31925,0},{30624,10639},{29992,10640},{26472,10648},{6822,10616},{3103,10645},{3103,10644},{30813,10649},{31327,10571},{26475,10652},{31967,0},{31961,0},{4509,10616},{31753,7560},{4650,10616},{26478,10660},{30657,10658},{28572,10649},{28572,10592},{27601,10661},{31994,0},{31988,0},{31991,0},{28572,10628},{32006,0},{8772,10616},{32015,0},{32012,0},{26493,10669},{32018,0},{32030,0},{3148,10677},{4650,10679},{32042,0},{27409,10681},{32048,0},{3103,10683},{32052,9804},{32057,0},{32066,0},{32060,0},{3112,10690},{28038,10592},{3040,10689},{28038,10628},{4641,10679},{32075,0},{4530,10679},{28038,10649},{23110,10554},{32093,0},{32090,0},{23109,10554},{3229,10698},{6822,10679},{4509,10679},{31838,0},{29043,10552},{8772,10679},{31641,10551},{26544,10699},{31263,10551},{3040,10553},{4530,10616},{31266,10700},{32108,0},{32450,0},{32114,0},{32112,10428},{32115,10556},{32112,10556},{31680,10706},{32124,10279},{31683,10707},{32129,0},{31698,10710},{32127,10437},{31704,10711},{32138,0},{31725,10714},{32147,0},{32150,0},{32151,10460},{32159,0},{29191,10716},{31746,10718},{31764,10720},{32165,0},{32177,0},{31800,10724},{31797,10726},{32171,0},{32164,10315},{32181,10601},{32191,10321},{32188,10041},{32189,0},{32195,0},{32192,0},{32198,0},{31860,10735},{31851,10733},{29656,10736},{31845,10734},{31875,10737},{3112,10740},{32216,0},{32219,0},{32228,0},{32452,10299},{32236,10058},{32237,0},{30589,10746},{32234,0},{32231,0},{32252,0},{31065,10746},{31929,10749},{32264,0},{32255,0},{32267,0},{4641,10752},{32273,0},{3229,10756},{32279,0},{32276,0},{3148,10762},{32285,0},{32282,0},{32265,10656},{4509,10752},{32297,0},{32111,0},{4650,10752},{32303,0},{6822,10752},{27601,10769},{30813,10766},{28572,10766},{3103,10768},{32283,10378},{32318,0},{32315,0},{32312,0},{32330,0},{32336,0},{8772,10752},{32345,0},{32354,0},{32357,0},{24120,10786},{32363,0},{32369,0},{27409,10790},{32390,0},{32384,0},{32387,0},{32396,0},{32393,0},{32402,0},{32405,0},{32407,7163},{32406,7396},{32417,0},{28038,10766},{32420,0},{32423,0},{32426,0},{4530,10752},{32432,0},{32447,0},{32435,0},{3040,10813},{32438,0},{32460,10428},{31263,10818},{32766,10110},{32442,10818},{32463,6891},{32465,0},{32466,6712},{32469,10555},{31686,10824},{29059,10825},{31689,10826},{32466,6655},{32463,7284},{32466,6832},{32463,7273},{32466,6647},{32463,8229},{32463,8967},{32466,7236},{32463,9067},{32466,6842},{32463,9112},{32466,6673},{32481,6712},{32463,8680},{32466,6653},{32481,6647},{32487,6655},{31701,10828},{32481,6832},{32487,6712},{32487,6653},{32481,7236},{32481,6653},{32487,6647},{32487,6832},{32481,6655},{31707,10830},{32463,9451},{32463,9361},{32466,7262},
{32466,7484},{32463,9175},{32466,7253},{32493,10713},{32487,7236},{32487,6842},{32481,6842},{32481,6673},{32487,6673},{32481,7484},{32463,10009},{32466,7293},{32463,10143},{32463,9470},{32466,8687},{32466,7512},{31737,10832},{32481,7253},{32481,8687},{32487,7262},{32487,7484},{32481,7262},{32487,7253},{32154,10833},{29676,10834},{32166,10838},{32512,10311},{32463,10592},{32466,7508},{24798,10836},{32507,0},{32520,10315},{31788,10839},{31809,10842},{31812,10843},{30957,10834},{32511,10311},{30498,10844},{32523,10728},{32481,7512},{32487,8687},{32544,10423},{32547,10184},{31836,10848},{32543,0},{32553,10321},{24870,10852},{31890,10856},{31869,10854},{31872,10853},{32463,10628},{32466,7518},{32481,7331},{32487,6912},{32466,6734},{32567,0},{31902,10857},{32580,8716},{32576,0},{32588,0},{32487,7512},{32481,7293},{32565,10188},{32598,10748},{32597,0},{32592,10203},{31941,10870},{32463,10649},{32466,6912},{32604,10753},{32537,0},{32609,0},{32487,7331},{32481,7562},{32624,0},{31539,10873},{31542,10871},{32625,8724},{32629,10213},{32630,0},{32586,10515},{32487,7293},{32481,7508},{30645,10880},{32643,10764},{32639,0},{32772,8182},{32466,7331},{32463,10766},{32648,0},{32651,0},{32661,8732},{32652,8731},{32660,0},{32666,0},{32675,0},{32481,7518},{32672,0},{32678,0},{32669,0},{32487,7562},{32487,7508},{32481,6734},{32688,10068},{32681,0},{32685,10073},{32466,7562},{32487,7518},{32481,6912},{32487,7357},{32481,7362},{32487,6734},{32481,7357},{32691,10078},{32466,7601},{32694,8743},{32699,0},{32466,7357},{32487,7362},{32481,8728},{32466,7362},{32487,8728},{32481,7601},{32466,8728},{32706,8046},{32466,6755},{32711,0},{32466,7159},{32481,7993},{32487,7601},{32481,6755},{32487,7993},{32466,8041},{32487,6755},{32481,7159},{32727,9808},{32720,0},{32733,9810},{32730,8073},{32466,7993},{32736,8079},{32487,7159},{32481,8041},{32739,9813},{32744,0},{32747,0},{32753,0},{32487,8041},{32757,8120},{32760,8145},{32778,10420},{32457,8660},{32777,0},{32765,0},{29059,10984},{29059,10955},{29059,11000},{32786,0},{26319,11119},{32792,0},{25005,11054},{32781,6832},{32783,0},{32795,0},{32801,0},{32781,6647},{32802,6832},{32819,0},{29059,10935},{32816,0},{32802,6712},{32781,6653},{32781,6655},{32802,6653},{32802,6655},{32781,6842},{32810,0},{29059,10937},{32834,0},{32837,0},{32828,0},{32781,6673},{32802,7236},{32781,7484},{32802,6842},{32822,0},{32825,0},{32781,7236},{32802,6647},{32831,0},{32840,0},{32843,0},{32858,0},{32855,0},{32849,0},{32846,0},{32852,0},{32870,0},{32873,0},{32861,0},{32864,0},{32891,0},{32888,0},{29059,10964},{32882,0},{32879,0},{32876,0},{32885,0},{32809,9852},{32802,7253},{32781,8687},{32802,7484},{32781,7253},{32802,6673},{32781,7262},{32897,0},{32906,0},{32909,0},{32912,0},{32900,0},{32903,0},{32915,0},{32933,0},{32930,0},{32927,0},{32918,0},{32921,0},{32924,0},{32802,7262},{32781,7508},{32802,8687},{32802,7512},{32781,7293},{32781,7512},{32948,0},{32939,0},{32945,0},{32942,0},{32951,0},{32936,0},{32957,0},{32966,0},{32969,0},{32960,0},{32963,0},{32972,0},{32975,0},{32978,0},{32802,7293},{32781,7518},{32995,10594},{32993,0},{32987,0},{32990,0},{32981,0},{32999,0},{29059,11002},{33017,0},{32994,10465},{33023,0},{33026,0},{29059,11001},{33011,0},{33014,0},{33018,10846},{33032,0},{33035,0},{32802,7508},{32781,6912},{32781,7357},{32802,7562},{29761,10929},{33041,0},{33044,0},{33059,0},{33056,0},{29059,11015},{33069,10346},{29059,11017},{33068,0},{29059,11016},{33065,0},{33062,0},{26151,11025},{29059,11024},{33086,0},{33089,0},{33092,0},{31074,11027},{31938,11031},{32802,7518},{33101,0},{32781,7331},{31950,11037},{33107,0},{33110,0},{29059,11034},{33122,0},{33125,0},{33126,8557},{33132,10517},{33131,0},{26178,11045},{33141,10372},{33149,0},{26244,11083},{33152,0},{33146,0},{32781,7562},{32802,6912},{33155,0},{31977,11052},{22717,10997},{23800,11014},{33170,0},{33174,8572},{33167,0},{33183,8573},{33186,8575},{26205,11059},{26202,11060},{33212,0},{33195,10773},{33206,0},{33194,0},{33209,0},{33189,10070},{30669,11073},{30678,11071},{32802,7331},
{32781,6734},{33224,0},{33230,0},{33227,0},{30696,11081},{32802,8728},{32781,7993},{33233,0},{33236,0},{33239,0},{33242,0},{33248,0},{33252,8604},{32781,7362},{32802,6734},{33257,0},{33263,0},{33260,0},{32802,7357},{32781,8728},{33266,0},{33272,0},{33269,0},{32802,7362},{32781,7601},{32781,7159},{33275,0},{32802,7993},{25194,11092},{33282,7389},{33281,0},{32781,8041},{32802,6755},{33283,7389},{33290,0},{33293,0},{33287,0},{33299,0},{33296,0},{33302,0},{32802,7159},{32802,8041},{33308,0},{33305,0},{33309,9809},{32802,7601},{33315,9811},{25230,11106},{32781,6755},{25236,11108},{33323,0},{33329,0},{33332,0},{33333,9814},{32748,11113},{33346,7730},{33342,9817},{23190,11115},{25278,11116},{25311,11117},{33363,8775},{3040,11126},{33375,10418},{33867,11291},{33843,1510},{33376,10547},{33389,0},{32796,11130},{33404,0},{33401,0},{33425,0},{33431,0},{33419,0},{33410,0},{33437,0},{33422,0},{33416,0},{29556,11144},{33428,0},{33449,0},{33452,0},{33467,0},{33470,0},{33455,0},{33458,0},{33501,11168},{33495,11166},{33371,0},{33515,0},{33507,11170},{33516,11175},{33519,11174},{33533,0},{33529,10573},{33542,0},{33545,0},{33536,0},{33539,0},{33548,0},{33530,0},{33570,11191},{33576,11194},{33585,11193},{33590,0},{33602,0},{33593,0},{33599,0},{33596,0},{33605,0},{33368,0},{33624,11209},{33630,11213},{33633,11212},{33653,0},{33650,0},{33645,10030},{32982,11214},{33656,0},{23757,11219},{33666,11214},{33374,0},{32535,11223},{33681,11228},{33698,0},{31839,11225},{31824,11230},{33680,0},{33674,0},{33689,0},{24879,11219},{33702,11233},{33710,0},{33707,0},{33720,11223},{33713,0},{33719,0},{24894,11241},{33716,0},{33750,11249},{33746,0},{33737,0},{33734,0},{33740,0},{3112,11251},{33758,0},{33762,11253},{33770,0},{33776,0},{25656,11241},{29059,11257},{33697,10847},{33782,0},{33794,0},{29059,11261},{33807,10763},{33806,0},{33798,11265},{25677,11267},{33822,11272},{3229,11270},{33815,0},{30813,11280},{33833,0},{33171,11278},{4641,11281},{29059,11279},{33830,0},{25722,11283},{26208,11241},{4650,11281},{26484,11241},{25737,11285},{3103,11287},{3148,11288},{25740,11286},{31998,11290},{4509,11281},{32463,11280},{33876,11293},{30675,11294},{33896,0},{33893,0},{27601,11295},{28572,11280},{27601,11296},{6822,11281},{33900,11301},{26697,11241},{33914,0},{33911,0},{27601,11302},{33918,11305},{33924,11307},{33821,0},{33820,1205},{25815,11310},{8772,11281},{33935,0},{33938,0},{33942,11315},{33950,0},{33953,0},{33957,11320},{33968,0},{33965,0},{33977,0},{33971,0},{3103,11326},{4650,11331},{33989,0},{33983,0},{4509,11331},{33992,0},{33996,11333},{34008,11335},{34016,0},{34020,11341},{34019,0},{27409,11342},{34031,0},{34040,0},{27409,11344},{3112,11345},{3040,11347},{8772,11331},{34050,11349},{27409,11351},{28038,11280},{34058,0},{34062,9820},{4530,11331},{34067,0},{3229,11356},{6822,11331},{4641,11331},{33386,0},{3148,11357},{33354,11127},{3490,11358},{34565,0},{34079,0},{34082,0},{34604,0},{34088,0},{34092,11131},{34097,0},{34101,11137},{33405,11366},{34125,11372},{34107,11147},{33471,11376},{34110,11148},{33438,11368},{34119,11153},{33462,11374},{34131,11159},{33474,11378},{34137,11160},{33483,11380},{33489,11382},{34143,11162},{34154,0},{34151,0},{34166,0},{34169,0},{34163,0},{34175,0},{34176,11184},{34182,11188},{33555,11393},{33561,11395},{34188,11186},{33549,11390},{33436,11375},{34191,10573},{34199,0},{34196,0},{34202,0},{33621,11405},{33615,11404},{34218,11202},{33612,11401},{34209,11203},{34206,11206},{34229,0},{34232,0},{34226,0},{30082,11413},{34242,11222},{34233,11221},{33660,11412},{34250,0},{30973,11415},{32983,11417},{34259,0},{33036,11421},{34272,10455},{34271,0},{31461,11415},{34268,0},{34262,0},{34283,0},{31054,11433},{34296,11247},{34304,0},{34287,11242},{33729,11430},{34310,0},{34314,10747},{31533,11433},{34325,0},{34331,0},{34340,0},{34344,10878},{34347,11263},{33786,11445},{34343,0},{34346,0},{34355,0},{27901,11454},{34090,10703},{34356,11453},{34091,0},{3112,11455},{34372,10662},{34364,0},{34370,0},{34388,0},{33846,11460},{34391,0},{34379,0},
{34373,0},{34392,11284},{32914,11391},{34400,0},{3148,11465},{34406,0},{3229,11472},{34415,0},{34403,0},{3103,11469},{29035,11361},{34412,0},{34430,0},{34085,0},{34427,0},{34424,0},{27601,11477},{29059,11473},{34434,11299},{34451,0},{34445,0},{34442,0},{34448,0},{22138,11490},{34454,0},{34457,0},{34466,0},{28210,11489},{34470,7379},{34458,11309},{34473,1034},{34481,0},{34469,0},{34484,0},{34485,11313},{28885,11497},{34493,0},{34497,11318},{34502,0},{26521,11500},{34503,11324},{34512,11328},{21099,11508},{34529,0},{34520,0},{34517,0},{34521,11334},{30760,11511},{34535,0},{34538,0},{34544,0},{23098,11514},{34559,0},{34562,0},{34554,11348},{34568,0},{34550,0},{34571,0},{32743,11523},{34577,0},{34574,0},{34579,11353},{27409,11527},{34586,0},{34578,11353},{34592,0},{34595,0},{34598,0},{34607,0},{30561,11438},{32103,11697},{34617,10551},{34626,11132},{34629,6712},{34632,11545},{34647,11548},{34653,11552},{34641,11550},{34674,11557},{34665,11556},{34659,11554},{34707,11568},{34695,11567},{34698,11570},{34692,11189},{34718,0},{34715,0},{34734,11579},{34740,11577},{34743,11576},{34757,0},{34761,11588},{34760,0},{34772,0},{34767,8284},{34774,10850},{34785,10494},{34791,10741},{34790,0},{31735,11594},{34781,0},{23811,11599},{31491,11585},{34773,10850},{35094,10341},{34786,10494},{34806,8303},{34802,0},{34809,11604},{34816,7146},{34823,0},{34815,7364},{32274,11615},{34836,11613},{34835,0},{25620,11610},{34865,0},{34860,10885},{34853,0},{34859,0},{27900,11623},{34884,10775},{34890,11626},{34875,8345},{34887,10774},{26814,11632},{34901,0},{34893,10224},{34895,0},{34916,0},{34911,8351},{34906,10668},{27243,11634},{34929,11479},{34932,8356},{34907,0},{34937,0},{34940,0},{29850,11642},{34947,10077},{34944,8362},{34958,0},{34957,9299},{27912,11654},{34969,11657},{34970,0},{34973,0},{34979,0},{28209,11661},{34981,1205},{34986,8383},{34980,1034},{29400,11665},{26520,11667},{35006,0},{35019,8062},{4509,11671},{35016,8065},{35015,0},{31236,11677},{4650,11671},{35035,7394},{22182,11678},{23097,11679},{35042,0},{35013,2924},{35052,8092},{33336,11686},{35064,9816},{35076,8110},{35075,0},{4530,11671},{35081,0},{35085,8131},{6822,11671},{35088,8137},{25974,11541},{4641,11671},{31270,11699},{31261,11700},{3490,11805},{35099,0},{31351,11715},{31309,11701},{31309,11702},{31309,11703},{31309,11705},{31309,11704},{31309,11706},{31309,11708},{31309,11709},{31309,11707},{35141,0},{31309,11710},{31309,11711},{31309,11712},{31743,11715},{31309,11717},{31309,11716},{31309,11718},{33693,11721},{31309,11720},{30988,11719},{22057,11723},{34776,11722},{35174,0},{35180,0},{35187,11727},{35177,0},{35185,10859},{35186,0},{35190,8284},{35195,0},{33720,11729},{35203,10867},{34293,11729},{35201,0},{35198,0},{32607,11736},{23818,11735},{33096,11736},{31309,11737},{35202,10867},{35216,0},{35222,0},{33825,11743},{22756,11744},{31309,11742},{34383,11748},{35240,0},{35249,0},{32001,11750},{25743,11752},{31309,11751},{35261,0},{35270,0},{24982,11754},{25758,11759},{35271,10382},{25732,11761},{34941,11762},{35303,0},{35292,10777},{25764,11763},{30687,11768},{25773,11769},{35310,9399},{35318,0},{35322,11775},{35333,0},{35336,0},{25836,11779},{35342,0},{35345,0},{35348,0},{35357,0},{25221,11786},{25218,11784},{35361,7393},{35366,0},{35369,0},{35371,10542},{35370,10694},{35375,0},{35378,0},{35361,7393},{35384,0},{25245,11795},{35390,0},{35391,9818},{25257,11798},{35402,0},{34587,11801},{25287,11802},{35411,0},{25293,11804},{35420,0},{3112,11904},{35423,0},{35426,0},{4509,11868},{35629,7982},{35142,11821},{35438,0},{35439,10436},{35440,10554},{35444,0},{35439,10436},{35447,0},{35450,0},{35453,0},{35459,0},{35462,0},{35456,0},{35455,11387},{35449,11384},{35471,0},{35468,0},{35474,0},{35435,0},{35477,0},{35486,0},{35480,0},{35483,0},{33027,11810},{35494,11829},{35492,0},{35489,0},{35501,0},{32463,11832},{35502,10731},{31908,11837},{35516,0},{35517,10859},{35508,11431},{35505,10861},{35522,0},{35493,11843},{35528,0},{35534,0},{33765,11845},{35551,11443},{35552,0},{4530,11848},
{35193,11843},{35543,0},{35425,10923},{35555,0},{35570,0},{4530,11855},{35569,11456},{35573,0},{4650,11848},{4650,11855},{4641,11848},{3112,11861},{4641,11855},{35588,0},{35587,11476},{29059,11860},{6822,11848},{4641,11865},{35603,0},{3103,11866},{4641,11868},{4530,11865},{4650,11868},{4650,11865},{35615,0},{30813,11832},{3148,11872},{31309,11869},{27601,11873},{4509,11848},{3229,11874},{4530,11868},{28572,11832},{4509,11855},{35627,0},{35628,7982},{6822,11855},{35633,0},{6822,11865},{8772,11848},{6822,11868},{35642,0},{28914,11882},{8772,11855},{26700,11883},{35663,0},{3103,11886},{35652,8068},{3148,11885},{35667,8074},{35675,0},{35672,0},{6822,11894},{8772,11865},{24264,11893},{35685,8096},{28038,11832},{35690,0},{8772,11868},{27409,11898},{4509,11894},{3040,11899},{35700,8112},{35682,2924},{25273,11901},{4530,11894},{35705,0},{3229,11902},{4650,11894},{35709,8139},{31269,11810},{4641,11894},{4509,11865},{35715,8177},{35029,11997},{35743,11546},{33360,11907},{25371,12026},{32776,11907},{35939,0},{35724,10923},{35729,0},{35739,11912},{35744,0},{35437,11916},{34681,11919},{35757,11560},{35754,11559},{35766,11563},{34687,11921},{35760,11561},{35772,11923},{35763,11562},{34684,11920},{34723,11927},{35778,11573},{35735,0},{34726,11925},{35775,11575},{35781,11574},{34720,11926},{35790,11582},{34750,11931},{34753,11932},{35796,11584},{35793,11583},{34747,11930},{35801,0},{34795,11935},{35804,0},{35805,11598},{35811,11727},{35816,0},{35493,11936},{35819,0},{32596,11940},{35831,0},{35822,0},{35834,0},{35828,0},{35835,7361},{35841,11038},{35499,11948},{35838,11936},{35842,11038},{35847,11444},{35853,11609},{35861,0},{35858,0},{35862,11739},{35867,0},{35871,11624},{35876,0},{35885,0},{35880,11072},{35888,0},{35891,0},{35897,0},{35734,11811},{35906,0},{35898,11641},{35894,0},{35909,0},{35912,0},{35924,0},{35921,0},{35927,0},{35941,11484},{35936,0},{35918,0},{35930,0},{35942,0},{35836,7361},{35945,0},{35951,0},{35948,0},{35950,10781},{35954,0},{35957,0},{35960,0},{4641,11910},{35966,0},{4530,11910},{4650,11910},{35969,0},{35634,11990},{35975,0},{35978,0},{35983,1205},{35981,0},{35982,1034},{6822,11910},{35990,0},{35005,11995},{35987,0},{35993,0},{8772,11910},{36005,0},{4650,11998},{25224,12000},{35999,0},{4509,11998},{25227,12002},{35676,12003},{36020,0},{36017,0},{36023,0},{35062,12007},{25248,12008},{36029,0},{8772,11998},{36035,0},{36041,0},{36038,0},{36044,0},{25263,12015},{4530,11998},{36050,0},{36053,0},{36056,0},{25272,12019},{36062,0},{36065,0},{6822,11998},{25299,12022},{35720,0},{36071,0},{4641,11998},{36074,0},{36077,0},{4509,11910},{36486,7807},{36491,0},{36105,11371},{36086,0},{33409,12035},{34638,12036},{36112,11386},{36113,0},{36116,0},{36120,11923},{36119,0},{36125,0},{36129,12042},{36137,0},{33370,12028},{35784,12049},{36144,12047},{36155,0},{36158,0},{36159,12047},{36122,0},{36162,12055},{36176,0},{36173,0},{36131,0},{36177,12055},{34284,12060},{32575,12062},{36194,0},{36200,0},{36195,11435},{36191,0},{33078,12062},{36146,0},{36206,0},{33096,12070},{34818,12071},{36216,11846},{32616,12068},{36221,0},{35547,12070},{36227,0},{32631,12077},{36230,0},{36224,0},{36233,0},{36243,7953},{36239,0},{36164,0},{36255,8346},{36254,0},{36263,0},{36258,7975},{36264,8353},{36101,0},{36267,7981},{36281,0},{36273,10227},{36270,8358},{36275,0},{36288,7617},{36285,7990},{36294,8372},{36291,7619},{28572,12105},{36312,11653},{30813,12105},{36297,8373},{36303,10780},{36309,7620},{36321,10900},{36330,8378},{36324,8004},{36333,10083},{32463,12105},{36336,8381},{36341,0},{36342,7991},{36347,0},{36350,0},{36351,8387},{34993,12118},{36356,0},{36357,7648},{36366,8395},{36360,8038},{36365,0},{36371,0},{36374,0},{35349,12127},{36375,8403},{35028,12128},{36083,0},{36389,0},{3148,12132},{36395,0},{36404,0},{3103,12135},{35041,12136},{36410,0},{36411,7712},{35061,12139},{24291,12138},{36422,0},{36425,0},{36426,9815},{36431,0},{28038,12105},{36432,8418},{24333,12145},{3040,12148},{36449,0},{24375,12150},{24390,12152},{36461,0},{24414,12155},{36470,0},
{3229,12157},{36095,0},{32427,12159},{24465,12161},{36102,8862},{36482,0},{36089,0},{3112,12030},{32545,12283},{36099,12282},{36866,0},{24483,12286},{3577,12285},{33493,12166},{36498,10950},{34155,12167},{36505,11917},{36509,0},{36506,0},{36513,11386},{36512,0},{36516,12174},{36521,0},{36530,0},{31740,12178},{31360,12178},{36542,0},{36539,0},{36549,12056},{36557,0},{36567,12061},{36575,0},{36572,0},{35823,12192},{34803,12194},{36579,11841},{36590,0},{36602,0},{36599,0},{32254,12198},{36608,0},{23856,12203},{36614,0},{36620,0},{36624,11223},{36621,12080},{36615,11727},{25707,12210},{32277,12209},{25746,12213},{25755,12217},{25752,12216},{36645,11864},{25761,12219},{36665,0},{36669,10384},{25779,12222},{25803,12225},{26496,12224},{26499,12226},{26502,12227},{36689,0},{26508,12233},{26505,12231},{36692,0},{36686,0},{32022,12232},{26511,12235},{25818,12236},{36704,0},{30708,12237},{36716,0},{25821,12239},{36726,8751},{22816,12241},{36720,8750},{25839,12244},{36729,8752},{36737,0},{34992,12246},{26514,12247},{26517,12248},{25851,12249},{36756,8756},{25860,12254},{36761,0},{36767,0},{36771,8757},{24255,12259},{36776,0},{24258,12260},{36785,0},{35379,12263},{3229,12266},{26526,12264},{36797,0},{36807,9819},{36815,0},{24309,12270},{26529,12272},{3148,12273},{36824,0},{24378,12275},{3040,12277},{3103,12279},{24444,12280},{36249,12282},{36845,0},{32590,12190},{26346,12164},{26349,12165},{3112,12284},{36883,11915},{36868,11538},{3577,12391},{4509,12355},{36872,0},{37178,0},{29059,12347},{36884,0},{36890,0},{36887,0},{36893,0},{36897,11917},{36908,0},{36909,12175},{36912,12177},{36917,0},{36921,12182},{36902,0},{36930,12186},{36201,12312},{32589,12313},{31309,12315},{36942,12069},{36950,0},{36949,11843},{36603,12317},{36962,0},{36234,12318},{36957,11039},{3148,12390},{25233,12368},{35868,12321},{36968,0},{36246,12323},{36975,11590},{36981,11838},{35223,12324},{36989,0},{3040,12328},{36920,0},{3040,12330},{36924,11929},{37001,0},{3103,12332},{3103,12331},{3112,12334},{3112,12337},{3112,12339},{3229,12338},{3112,12340},{3040,12341},{3103,12343},{37038,10084},{3103,12344},{37035,10782},{3148,12349},{3040,12348},{27601,12351},{37056,11496},{3148,12353},{4530,12355},{25164,12354},{25167,12356},{4650,12355},{25170,12358},{4641,12355},{3229,12357},{37082,0},{3229,12361},{3229,12362},{37091,0},{25215,12364},{37097,0},{35664,12367},{37107,8087},{37113,8089},{6822,12355},{37121,0},{37124,0},{35691,12376},{37127,0},{27409,12377},{37137,8107},{37134,9821},{37142,0},{37145,0},{37149,8127},{37154,0},{37157,0},{37158,8152},{36876,7832},{8772,12355},{34609,12389},{36869,0},{37169,0},{3040,12479},{3148,12468},{37458,11538},{37454,0},{37457,0},{37184,0},{37191,12287},{37268,0},{37200,11915},{36894,12401},{36903,12403},{36900,12403},{37214,0},{37218,12174},{36138,12405},{37223,0},{37181,0},{37180,11122},{36918,12408},{35787,12408},{37229,0},{37235,0},{37241,0},{37238,0},{37248,11843},{37247,0},{37252,11608},{37244,0},{37262,0},{37257,12321},{37461,11536},{34801,12421},{37253,0},{36978,12424},{37275,8730},{37280,0},{37283,0},{37286,0},{37289,0},{37295,0},{35784,12432},{35475,12432},{37301,0},{36919,12434},{37313,0},{37310,0},{37305,11971},{37316,0},{37319,0},{37322,0},{37325,0},{37328,0},{37331,0},{37199,0},{32025,12447},{37276,8730},{37324,11492},{37340,0},{30711,12445},{37334,0},{37346,0},{37349,0},{37352,0},{34989,12451},{37358,0},{37370,0},{37361,0},{3040,12454},{3112,12455},{37376,0},{3103,12457},{37379,0},{37385,0},{37390,1427},{37388,0},{37389,1427},{3229,12464},{35671,12466},{37400,0},{37271,0},{3040,12423},{3103,12467},{37409,0},{35071,12472},{37424,0},{37428,9822},{37418,0},{36829,12475},{37425,12276},{3229,12482},{3610,12483},{37190,0},{37472,0},{37484,0},{37733,0},{37737,8178},{37490,0},{37493,0},{37499,0},{37506,12042},{36150,12503},{36511,12497},{37512,11407},{37521,12308},{37520,0},{36168,12508},{36183,12509},{33777,12510},{37533,12317},{37538,0},{37544,0},{37254,12513},{35556,12515},{36216,12513},{37558,11053},{37553,0},{36972,12516},
{37560,11608},{37568,0},{37565,0},{36603,12513},{37569,11618},{37575,12513},{37290,12526},{37557,11053},{37572,12205},{37570,11618},{37584,12049},{37589,0},{30684,12531},{37595,0},{37604,0},{35215,12515},{37614,11492},{27601,12546},{30813,12543},{29059,12542},{28572,12543},{31309,12551},{32463,12543},{37634,0},{37662,8034},{37667,0},{37659,8035},{37670,0},{37671,8049},{37676,0},{37684,12562},{37691,0},{37683,12562},{37694,0},{36012,12566},{37704,10804},{3489,12567},{37709,0},{37710,8098},{27409,12573},{28038,12543},{37715,0},{35070,12574},{37466,0},{32089,12568},{37161,12493},{37556,0},{37469,0},{37473,7825},{37479,12581},{33139,12595},{37206,12584},{37494,12585},{37500,12586},{37761,12050},{37766,0},{37772,0},{37768,10595},{37775,0},{36903,12585},{37767,10595},{37781,0},{37784,0},{37790,0},{37787,0},{37799,0},{37791,11956},{37802,0},{37805,0},{37817,0},{37812,11854},{37809,12602},{37829,0},{26691,12606},{37826,0},{37838,0},{37832,0},{37839,11066},{37841,0},{37804,11724},{37842,11636},{37843,11636},{37830,11640},{37847,0},{37853,0},{37848,12408},{37854,10386},{37865,0},{37862,0},{37871,0},{37874,0},{37868,0},{37877,0},{37880,0},{37883,0},{25188,12631},{25179,12629},{25191,12633},{4284,12636},{37913,0},{37919,0},{37922,0},{37925,0},{25251,12643},{37937,0},{37943,0},{37948,12281},{37949,0},{24606,12583},{25350,12653},{37934,0},{35773,12656},{37964,0},{37970,0},{37973,0},{37980,12181},{37776,12662},{37994,0},{37997,0},{37998,12187},{38001,12195},{35428,12655},{33138,12669},{38144,0},{38004,12598},{38015,0},{35559,12672},{35172,12673},{38028,12607},{38027,0},{37236,12679},{38036,0},{35574,12677},{34410,12681},{32676,12683},{38048,0},{38054,0},{37988,0},{38057,0},{38063,0},{34914,12684},{37008,12689},{38067,12335},{38075,0},{35328,12692},{38082,10783},{38091,10089},{38097,11498},{3103,12700},{3040,12701},{3112,12702},{37396,12703},{38121,12706},{3229,12708},{38109,12465},{37420,12703},{38109,12473},{3148,12703},{38111,0},{38127,9823},{38136,12388},{3148,12713},{37967,0},{38180,0},{38151,12580},{38300,0},{34600,12757},{38297,0},{38271,11533},{38213,0},{36132,12718},{37974,12719},{35772,12718},{38150,0},{38149,11124},{38163,12663},{38166,12410},{38187,12670},{38301,11809},{38183,0},{38195,0},{38191,12419},{38190,12320},{38198,0},{38201,0},{37833,12734},{38208,8739},{35866,12737},{38207,0},{38216,0},{38219,0},{38223,11758},{38209,8739},{38226,12688},{38237,0},{38240,0},{38241,12619},{38249,0},{35335,12749},{32034,12750},{30729,12751},{34998,12752},{38264,0},{38261,0},{38267,0},{38269,12638},{38273,0},{36031,12757},{38271,12010},{38268,12638},{38276,0},{38282,0},{38279,0},{38285,0},{38287,12380},{3576,12763},{38286,12477},{38292,9824},{38185,12423},{37269,12728},{38321,0},{38304,12492},{38359,11745},{38327,0},{38330,0},{38333,0},{38334,11418},{38342,0},{36892,12781},{37554,12768},{38351,0},{34374,12784},{38348,0},{38363,0},{35241,12785},{36573,12788},{38360,0},{36249,12774},{38372,0},{38040,12789},{37542,12793},{38375,0},{38377,11755},{38376,11755},{38382,12795},{38390,0},{30813,12797},{38394,12690},{38405,0},{38400,12748},{38356,11747},{35637,12802},{38411,0},{29059,12804},{32463,12797},{28572,12797},{27601,12805},{31309,12806},{37677,12803},{38434,1293},{3879,12811},{37413,12812},{38444,0},{38441,0},{38275,12816},{38445,12760},{38465,0},{38462,0},{38459,0},{28038,12797},{27409,12822},{37161,12774},{38315,0},{38438,0},{37950,12774},{38474,0},{37746,12771},{37732,12877},{38169,12832},{38645,0},{38022,12837},{37503,12828},{37515,12829},{37218,12828},{38490,12184},{38488,12505},{38495,0},{31881,12833},{38501,0},{38504,0},{38510,0},{34867,12836},{38483,0},{38519,0},{38514,12321},{38520,11846},{38523,11745},{38528,0},{38534,0},{38529,12740},{38055,12847},{38058,12847},{26694,12846},{38535,12317},{38546,0},{38550,12744},{38555,0},{38059,12844},{38558,0},{38562,12853},{38567,0},{38570,0},{38094,12855},{37378,12857},{38576,0},{38579,0},{38585,0},{38582,0},{38588,0},{38591,0},{38592,12268},{38600,0},{38597,0},{38451,12867},{36424,12864},
{38612,0},{38616,12871},{38624,0},{38627,0},{38639,0},{37123,12878},{38630,0},{31456,12893},{38475,12884},{38307,12934},{38660,0},{38663,0},{38666,0},{35770,12889},{38671,10626},{38651,0},{38670,10626},{38505,12894},{38657,0},{38689,12527},{34866,12895},{37807,12899},{35577,12898},{38690,0},{38702,0},{38705,0},{38058,12903},{38706,12218},{38714,0},{38723,0},{38726,0},{38717,0},{38718,12903},{38482,12885},{38738,0},{38733,10779},{38737,12535},{38739,12832},{37482,12936},{38744,0},{37879,12915},{35643,12916},{38755,12630},{38753,0},{38766,10092},{38754,12630},{38760,11502},{38777,0},{38604,12926},{38608,12928},{38789,0},{38454,12930},{38786,0},{38795,0},{38796,9825},{38678,0},{38815,12935},{36094,12957},{38819,0},{37977,12940},{37983,12941},{38827,12172},{37761,12940},{36114,12942},{37506,12940},{38831,0},{38830,11425},{38832,12945},{38676,12944},{38840,0},{38844,12897},{38852,0},{38849,0},{38855,0},{38858,0},{38859,12527},{38862,12793},{38547,12958},{38870,0},{38880,12837},{38888,0},{38883,12909},{38878,7995},{38877,7995},{38889,12532},{32019,12965},{38892,12535},{38900,0},{38891,0},{38901,10234},{38903,0},{38812,12883},{37183,12968},{37456,12939},{36364,12971},{38915,0},{30744,12974},{35007,12976},{38927,0},{38816,0},{38781,12977},{38788,12978},{38936,0},{38458,12981},{38939,0},{38607,12982},{38945,0},{38950,12423},{38952,9832},{37269,12983},{38835,12937},{35893,13003},{37476,12988},{38969,0},{38972,0},{38974,11426},{38985,11425},{38984,0},{38975,0},{38990,0},{38981,0},{38978,0},{38991,12937},{38996,0},{38478,12988},{39002,0},{35589,13001},{39012,11639},{39017,0},{39020,0},{39024,12743},{36282,13003},{39023,0},{38963,0},{32463,13012},{39027,12533},{39041,0},{39033,13010},{39044,0},{39018,12102},{39029,0},{39050,0},{29059,13015},{39059,0},{37311,13018},{39060,10392},{39066,12548},{39065,0},{39070,12552},{39013,11639},{30813,13012},{39074,0},{36750,13025},{37680,13024},{31309,13027},{28572,13012},{27601,13026},{38772,13028},{38805,13029},{39092,0},{38940,13032},{39101,0},{38619,13036},{32754,13033},{39107,0},{28038,13012},{27409,13038},{39119,0},{39069,12552},{39067,12548},{39095,0},{39122,0},{39033,13010},{36096,12987},{38960,0},{39311,0},{38865,13055},{39128,0},{39290,0},{38160,13043},{38337,13044},{39137,0},{39141,12188},{39144,11426},{37221,13051},{39150,12174},{38997,13053},{39158,0},{39133,12779},{39303,12985},{39140,0},{39164,0},{35281,13056},{39170,0},{39125,0},{39173,0},{35916,13059},{38730,13062},{35938,13063},{39185,0},{38542,13060},{39194,0},{25806,13066},{39197,0},{39209,0},{37308,13068},{39218,0},{39183,13017},{39224,0},{38907,13073},{39227,0},{39230,0},{39231,10240},{39233,0},{39239,0},{37384,13081},{39242,0},{39248,0},{38769,13079},{39251,0},{39260,0},{39257,0},{39263,0},{39254,0},{39266,0},{39268,12475},{39272,0},{32419,13091},{39281,0},{39278,0},{37425,13089},{39287,0},{39228,13078},{39296,0},{39308,0},{39234,13099},{39492,13128},{37953,13107},{39348,13117},{39355,10651},{39329,0},{39332,0},{39147,13111},{39138,13111},{39341,0},{36127,13112},{36139,13115},{36160,13109},{36151,13114},{39354,10651},{38841,13121},{39320,0},{35280,13123},{39367,12530},{39368,0},{35610,13125},{39380,0},{39392,0},{39385,13067},{39383,0},{39398,0},{39204,13133},{39393,11487},{39319,13041},{39372,13017},{37317,13130},{39405,13070},{39413,0},{39419,0},{39428,0},{38833,13119},{39429,10397},{38587,13144},{39438,10788},{38421,13145},{39437,0},{39446,0},{36753,13147},{39453,10100},{23184,13155},{39473,0},{39482,0},{39477,13158},{37146,13157},{39483,9828},{39467,0},{39488,0},{39500,0},{38179,13167},{39648,13163},{38848,13180},{36823,13210},{36927,13170},{38673,13171},{39521,0},{39532,11440},{36159,13170},{36549,13170},{39530,0},{39536,0},{39526,11439},{39529,11437},{39533,0},{39527,0},{39506,0},{39535,11442},{39539,0},{39542,0},{39543,13124},{39548,0},{39551,0},{39552,12530},{39557,0},{39558,12799},{37608,13187},{39566,0},{39570,8010},{39581,0},{34974,13192},{39573,13134},{39587,0},{39582,13181},{39590,0},{37318,13187},{39579,12547},
{39594,13140},{39605,0},{39505,13169},{39602,0},{39571,8010},{32061,13203},{39614,0},{38263,13205},{37906,13207},{39623,0},{30771,13208},{39629,0},{39112,13212},{39641,0},{39642,9831},{39638,0},{36880,13220},{37485,13218},{39668,0},{39671,0},{39672,13174},{39680,0},{39687,11442},{39695,0},{39683,0},{39684,11437},{39677,0},{39692,0},{39699,11439},{39696,11440},{38989,13223},{39507,13234},{39651,13105},{39707,0},{39006,13237},{35931,13239},{39716,0},{39726,11771},{39725,0},{39729,13189},{37611,13245},{37321,13245},{39734,0},{39740,0},{31309,13248},{37332,13247},{39755,0},{39761,0},{39764,0},{39767,0},{39774,10244},{39773,0},{39655,12495},{30813,13259},{39727,11771},{39776,0},{39447,13261},{29059,13260},{39787,13087},{37905,13264},{39791,0},{39786,13152},{27601,13265},{28572,13259},{32463,13259},{23184,13266},{28038,13259},{39803,0},{27409,13269},{39111,13270},{39660,12293},{34591,13322},{39977,0},{39816,13271},{39857,0},{38172,13273},{39516,13274},{37227,13279},{39834,13282},{39828,12197},{39831,13281},{39840,13282},{39854,0},{39851,0},{31962,13285},{39860,0},{39147,13274},{39842,0},{39864,13281},{39869,0},{39833,0},{39873,13129},{39872,0},{36328,13290},{39862,13099},{39878,0},{39884,0},{39887,0},{39890,0},{39213,13297},{39899,0},{39902,0},{39863,0},{25830,13298},{39903,13197},{39912,13199},{39920,0},{39917,0},{39929,0},{39926,0},{39930,10407},{39918,10787},{39941,0},{39790,13311},{39935,0},{39944,0},{39938,0},{39950,0},{39459,13309},{39956,0},{39953,0},{39959,0},{39965,0},{39971,0},{35082,13322},{39974,0},{39813,13307},{39818,0},{39987,10426},{39986,0},{40045,12443},{39291,13380},{39992,0},{39995,0},{40007,0},{40010,0},{36142,13334},{36178,13330},{36169,13332},{40019,0},{39495,13357},{40025,0},{39174,13344},{40040,0},{36327,13347},{40046,0},{40049,0},{35961,13350},{39747,13351},{40038,12966},{39750,13353},{40062,13352},{40076,0},{40071,13099},{39414,13356},{40077,13354},{40082,0},{40083,10904},{39253,13363},{40097,0},{40092,10791},{40100,0},{39945,13369},{32721,13368},{38112,13370},{40106,0},{40122,10104},{40121,0},{40128,11517},{40131,9827},{39980,0},{39979,12488},{40139,0},{39708,13340},{31279,13329},{40151,0},{39550,13397},{39981,13384},{40187,0},{36933,13387},{39825,13388},{40174,11450},{40177,11614},{36177,13387},{40181,0},{40170,13338},{40167,13337},{40020,13394},{40175,0},{40178,0},{40188,13120},{40180,11616},{36567,13387},{40193,0},{40199,0},{40194,13017},{40200,12540},{37617,13401},{35320,13402},{40214,0},{40211,0},{40208,0},{37327,13401},{40217,0},{40221,7158},{40226,0},{40232,0},{40222,7158},{40233,13256},{40285,13429},{40238,0},{32076,13415},{40253,0},{40256,0},{38431,13419},{32389,13420},{30780,13421},{35049,13423},{40259,0},{40272,9829},{40275,12648},{38470,13386},{40286,0},{40160,0},{40298,0},{40304,0},{40307,0},{40317,11616},{40316,0},{40310,0},{40325,0},{40313,0},{40329,11450},{40332,11614},{40326,13236},{39694,13435},{39136,13445},{40340,0},{40343,0},{39720,13448},{37050,13449},{40352,0},{40358,0},{40355,0},{40361,0},{35319,13456},{39756,13455},{40374,13352},{40379,0},{39423,13460},{40215,13461},{32463,13462},{28572,13462},{39657,13433},{40391,0},{30813,13462},{40394,0},{29059,13466},{40401,13468},{37186,13431},{40360,13355},{40411,12370},{27601,13471},{40410,12370},{31309,13472},{40409,0},{38430,13473},{28038,13462},{27409,13474},{40427,0},{36061,13476},{40430,0},{40287,13477},{37185,13431},{38469,13478},{40408,13513},{40526,0},{40542,13479},{38175,13480},{39999,13481},{39834,13481},{40029,13484},{40452,13485},{40446,13486},{40449,12212},{40466,0},{40463,0},{40469,0},{32682,13490},{40474,10665},{40476,13486},{40473,10665},{37233,13493},{40472,0},{40448,0},{40484,0},{40488,13071},{40488,12545},{37633,13495},{40497,13355},{40218,13497},{40487,0},{40502,0},{40503,13409},{40362,13496},{40371,13497},{40506,13497},{22947,13503},{39235,13504},{40056,13497},{40517,0},{40520,0},{40523,0},{40527,13362},{39922,13508},{40532,0},{40533,10906},{40535,0},{40538,0},{40547,0},{40553,0},{40556,0},{40559,0},{40541,0},{40565,0},
{40568,0},{40571,0},{40572,13427},{37153,13525},{36462,13526},{37440,13525},{40583,0},{40586,0},{40589,0},{40758,13394},{40626,13430},{40598,0},{40601,0},{40604,0},{40607,0},{40616,0},{40613,0},{36166,13539},{40631,0},{40640,0},{35851,13533},{36184,13547},{32317,13548},{39879,13550},{40656,13454},{40655,0},{40660,12549},{40665,13496},{40664,0},{40679,0},{40676,0},{40659,12549},{40682,0},{37884,13556},{40654,13253},{40685,0},{20442,13562},{40690,12632},{40687,8399},{40692,13565},{40691,0},{40695,13352},{40698,11503},{40701,10097},{40706,0},{40708,12809},{40710,10793},{40709,0},{40715,0},{40716,11104},{40592,0},{40560,13578},{40740,9826},{40748,0},{40751,0},{40757,0},{40754,0},{39921,13531},{40143,13531},{40143,13531},{34611,13530},{38640,13588},{40761,13591},{40925,0},{35850,13592},{40320,13593},{40782,13342},{40792,11627},{40788,13541},{40785,13540},{40793,0},{40770,13544},{40805,0},{40801,12092},{40804,11766},{40802,0},{40811,0},{40815,13302},{40814,0},{40823,0},{40671,13608},{40841,0},{40835,0},{37338,13609},{40844,0},{40842,12634},{40850,0},{40853,0},{32463,13618},{28572,13618},{40859,0},{40860,12632},{40372,13621},{35010,13622},{30813,13618},{40395,13624},{40877,0},{30756,13623},{32079,13626},{40881,12809},{40248,13628},{40768,13590},{41043,13544},{40768,13682},{40889,0},{34564,13630},{40895,0},{40896,9830},{28038,13618},{40900,13634},{40902,13633},{40908,13635},{40917,13514},{40913,0},{40922,0},{40916,0},{37956,13685},{40969,13385},{40934,0},{40937,0},{39691,13646},{40943,0},{40949,0},{40955,0},{40950,11627},{39706,13645},{40956,11766},{40964,0},{40961,0},{40965,12092},{40968,13385},{40973,0},{39909,13658},{40982,0},{40977,13612},{40983,13662},{40991,0},{37674,13664},{40997,0},{40998,8041},{40998,8041},{40836,13667},{41009,0},{41006,0},{41015,0},{32715,13672},{31309,13673},{27601,13677},{41018,0},{41013,13676},{41025,13414},{41024,0},{29059,13678},{41039,0},{41051,0},{41085,13432},{41057,0},{40737,13686},{27409,13687},{41066,0},{41072,0},{40930,12711},{41075,0},{41078,0},{38133,13643},{40146,13693},{41092,12770},{40926,13743},{41234,0},{36633,13698},{40608,13699},{41101,11067},{40029,13699},{41100,11067},{40635,13701},{41103,13702},{41114,0},{40797,13703},{41116,11650},{41115,11650},{39864,13699},{41118,13708},{41121,13708},{41129,0},{41132,0},{41120,0},{41136,13610},{41133,13297},{41139,12359},{41142,13615},{38917,13715},{41147,0},{41153,0},{41157,10271},{41163,13670},{41162,0},{41169,11510},{41166,10095},{41157,9524},{39814,13745},{41163,13676},{41183,0},{41192,0},{41189,0},{41180,0},{41157,9346},{41193,10799},{41157,10821},{32368,13728},{41177,0},{41198,0},{41202,11516},{40543,13735},{41140,12359},{41204,0},{37468,13736},{38938,13737},{41213,0},{41217,9833},{41216,0},{41224,13691},{41091,12770},{41223,13742},{41090,0},{38316,13748},{41402,0},{41082,13803},{41243,0},{35878,13749},{41249,0},{41252,0},{41255,0},{41258,0},{41261,0},{41267,0},{41273,0},{40806,13758},{41279,0},{41282,0},{41285,0},{40494,13764},{41300,0},{39889,13767},{41306,0},{40852,13769},{41312,0},{38916,13771},{28572,13775},{41321,0},{41324,0},{32463,13775},{30762,13777},{35025,13776},{41336,0},{41339,0},{41340,13670},{41199,13783},{41357,0},{41363,0},{41040,13782},{32085,13786},{30813,13775},{41272,13602},{41375,0},{41377,11682},{41382,11685},{41381,0},{40731,13793},{41390,0},{39102,13797},{36441,13796},{41394,9834},{28038,13775},{41378,0},{41242,13746},{41405,0},{41408,0},{31309,13832},{41413,12882},{41421,13746},{41420,0},{35877,13809},{40944,13810},{41439,13598},{41433,10889},{40323,13812},{41442,13756},{41454,13345},{41457,13763},{41426,0},{41425,12399},{40819,13820},{41462,0},{41463,13716},{41468,0},{37380,13823},{41474,0},{38424,13822},{41480,0},{41172,13829},{41483,0},{41492,0},{32376,13828},{27601,13831},{30306,13833},{32724,13834},{41478,13367},{40101,13825},{41507,0},{41519,0},{32383,13834},{29059,13840},{28938,13837},{34545,13838},{41528,0},{41525,0},{40558,13846},{41537,0},{41414,0},{41543,0},{36043,13848},{41549,0},{41552,0},{27409,13851},
{41558,0},{40806,13815},{41534,0},{41439,13598},{41564,0},{41559,11682},{41563,11906},{41576,0},{41614,10901},{41579,0},{39282,13901},{41585,0},{41588,0},{41594,0},{41591,0},{40309,13865},{40339,13862},{39676,13867},{41607,12541},{41615,0},{40818,13872},{41621,0},{38260,13874},{41627,0},{34516,13876},{36379,13875},{41633,0},{35022,13876},{40876,13879},{29059,13882},{30297,13880},{34011,13881},{41651,0},{41573,0},{36082,13857},{27601,13884},{41657,0},{41660,0},{41199,13888},{41675,0},{41667,13684},{31309,13893},{27409,13892},{31245,13895},{41684,0},{41682,11519},{38646,13898},{37434,13900},{41711,0},{28266,13904},{41717,0},{41724,12158},{37443,13910},{41729,0},{41702,0},{37156,13910},{41733,13104},{41879,0},{41565,13913},{36864,13912},{41764,11655},{41743,13221},{37144,13958},{36642,13915},{41262,13916},{40476,13916},{35295,13920},{34953,13919},{41754,13917},{41445,13917},{40635,13916},{41759,0},{41763,11655},{41768,0},{41769,10901},{41774,0},{41316,13926},{41154,13925},{40995,13926},{36378,13927},{41316,13926},{41786,0},{41789,0},{41154,13930},{41795,0},{41802,10103},{41805,11513},{41801,0},{41798,0},{36768,13937},{36399,13932},{41819,0},{41508,13940},{41823,13372},{41670,13940},{41826,13783},{40546,13943},{41837,0},{41834,0},{41844,11681},{41841,10803},{40722,13943},{41849,0},{41850,13104},{41855,0},{41744,0},{41859,9671},{41862,13598},{41762,0},{41721,13954},{41867,0},{41870,0},{41738,0},{41852,0},{41406,13960},{41737,13962},{42042,14015},{36873,14016},{41880,13031},{41706,14008},{41903,0},{41906,0},{41909,0},{41912,0},{41915,0},{41916,13758},{41448,13973},{42036,11645},{41924,0},{34447,13975},{41930,0},{35902,13967},{41936,0},{41945,0},{41948,0},{41619,13980},{41175,13985},{41951,0},{41954,0},{41179,13986},{41961,13925},{41352,13986},{35998,13992},{41364,13985},{27601,13989},{31309,13990},{41981,0},{41984,0},{41988,13888},{41996,0},{41671,13999},{42034,13751},{42002,0},{36786,14001},{42006,13843},{42011,0},{36787,14001},{29059,14004},{42017,0},{42023,0},{41419,13966},{39663,14009},{41898,13860},{41897,0},{27409,14010},{42035,0},{34936,14012},{42041,0},{41891,0},{42056,0},{42213,13917},{42163,12372},{42058,12291},{41896,14023},{35901,14024},{41598,14025},{42084,14027},{42078,13549},{42089,0},{42095,0},{42092,0},{40947,14032},{42106,12695},{42107,0},{41937,14036},{42114,13930},{42119,0},{41952,14037},{37098,14041},{42122,0},{42131,0},{42126,13930},{42134,0},{42111,13772},{42141,14046},{42137,0},{42149,0},{42146,0},{42158,0},{42162,12372},{42173,0},{42176,0},{42167,0},{42185,0},{42130,13991},{42189,13154},{42068,0},{42071,0},{42197,0},{42194,0},{41718,14053},{42084,14027},{41253,14069},{42065,0},{42062,0},{42200,0},{42066,13155},{39960,14022},{42206,0},{42228,14118},{41311,14088},{41886,14117},{42236,0},{42239,0},{40312,14081},{41451,14082},{42242,0},{40942,14085},{40963,14079},{42260,0},{42261,12695},{42266,0},{42267,14090},{42275,0},{42278,0},{42279,13988},{42287,0},{42282,13991},{41779,14097},{37696,14100},{42229,14020},{37695,14100},{42306,14053},{42311,0},{42177,14105},{37410,14104},{42318,11524},{41689,14107},{41688,14107},{42320,0},{42329,0},{42326,0},{39627,14110},{42198,14077},{42201,14111},{39804,14112},{42339,14077},{42342,14102},{42350,0},{42486,13813},{42387,14084},{42377,0},{36660,14126},{41286,14127},{42385,12106},{42390,14083},{42384,12106},{42398,0},{42395,0},{37650,14131},{41121,14127},{38088,14132},{42404,0},{41475,14135},{42411,13930},{42410,0},{42414,13938},{41661,14135},{42419,0},{42420,14096},{42425,0},{42409,13788},{42415,13938},{42437,0},{41533,14146},{36421,14149},{42444,13897},{42449,0},{42452,0},{42459,11689},{42458,0},{39093,14154},{42476,0},{42473,0},{42479,0},{42434,0},{42371,0},{42485,0},{42374,0},{34620,14124},{41871,14201},{42495,14072},{42500,0},{42503,0},{42507,14168},{42504,14083},{42494,0},{42512,0},{37351,14172},{37867,14171},{42524,0},{42527,0},{36301,14166},{42533,0},{42537,13788},{42536,0},{42546,14046},{42542,0},{42545,0},{42549,14098},{42297,14184},{42557,0},{38115,14187},
{42565,12642},{42018,14192},{36801,14191},{42572,0},{42569,0},{42490,14074},{42696,13758},{42490,14233},{42493,13964},{41697,14194},{42581,0},{42587,0},{42591,14196},{42595,13426},{40278,14198},{42566,0},{42099,14168},{42521,0},{42611,0},{34603,14202},{42614,0},{41878,14204},{42683,0},{37734,14246},{37735,14246},{36300,14206},{41604,14207},{41892,14210},{42626,0},{42627,14033},{42636,14213},{42519,14213},{42642,13765},{42649,12919},{42650,0},{41634,14217},{42656,0},{42141,14219},{42662,0},{41991,14222},{42150,14221},{42671,0},{42559,14224},{42674,0},{42181,14226},{42680,0},{42684,14230},{42689,0},{42704,0},{42707,0},{42325,14236},{42714,13156},{42710,0},{42719,0},{42725,0},{42480,14240},{42726,12642},{41883,14247},{42744,14199},{42754,14205},{42430,14267},{42615,14251},{42758,0},{42761,0},{42764,0},{42633,14255},{42770,0},{42633,14255},{42776,0},{40960,14259},{42782,0},{42783,12919},{39940,14262},{42789,13789},{42794,0},{42800,0},{42799,13516},{42795,14051},{42809,0},{42803,0},{42558,14270},{42815,0},{42180,14272},{42821,0},{42825,11691},{42828,12012},{42833,0},{42827,0},{42830,0},{42836,0},{42465,14279},{42468,14278},{42720,14280},{42846,13689},{42309,14249},{42633,14255},{42851,0},{42225,14249},{42752,0},{39627,14278},{42854,0},{42912,14268},{42960,13805},{42855,14286},{42735,14325},{42866,0},{42889,12921},{37026,14289},{41610,14290},{42876,14293},{42102,14291},{42885,14215},{42888,12921},{42896,0},{42871,13870},{42899,0},{36390,14299},{42417,14301},{41785,14300},{42906,13516},{42863,0},{42911,0},{42429,14306},{42923,0},{42929,0},{42930,14237},{42935,0},{42938,0},{42942,11799},{42945,12146},{39960,14316},{39465,14316},{42953,0},{42956,0},{42959,0},{42102,14291},{42369,14286},{42852,14199},{42858,14199},{42965,0},{43024,13150},{36004,14342},{43004,0},{37861,14334},{43007,0},{43010,0},{42882,14337},{43019,0},{43023,13150},{43031,0},{42986,0},{42139,14344},{42226,14328},{43037,0},{43040,0},{43049,0},{43087,14033},{43058,0},{43070,0},{43067,0},{43073,0},{43076,0},{43083,14281},{43088,0},{43094,0},{43091,0},{42987,13960},{43095,14284},{42995,0},{42969,14366},{42972,14377},{43110,13136},{38079,14369},{41931,14371},{42771,14372},{43121,0},{43111,13136},{43127,0},{43104,12398},{42225,14377},{43136,0},{40728,14381},{43139,0},{43151,0},{43152,14353},{43161,8124},{43164,13211},{43169,0},{42099,14390},{43170,14083},{43176,14332},{43173,14200},{43184,0},{43105,12398},{37728,14413},{43260,14395},{43196,0},{43199,0},{43202,0},{43203,14402},{42259,14400},{43217,0},{42994,14420},{43220,0},{41386,14408},{43230,12474},{43232,0},{43235,0},{43236,14360},{41067,14414},{43247,0},{43226,0},{43116,14402},{42729,14416},{43251,14419},{43193,0},{43295,0},{43282,13375},{43272,14423},{42399,14425},{43280,0},{43281,13375},{43128,14428},{43289,0},{43268,0},{43290,14147},{43188,14442},{43298,0},{37716,14433},{43302,14386},{43310,0},{43311,14028},{41385,14438},{43317,14212},{42345,14437},{43322,0},{43361,0},{43014,14447},{43337,0},{43340,0},{38911,14445},{43349,0},{43346,0},{42910,14449},{42682,14452},{42745,14453},{43375,14070},{43062,14454},{43367,0},{43371,13740},{43376,0},{43287,14451},{43385,0},{43382,0},{43379,0},{43323,14451},{42966,14462},{42990,14463},{43044,14468},{43430,0},{43450,14439},{43461,14212},{43450,14488},{38910,14465},{42528,14466},{43394,0},{43403,0},{43415,0},{43417,14313},{43421,0},{43424,0},{43425,14385},{43418,0},{38145,14473},{43393,14333},{42210,14477},{42855,14463},{42744,14463},{43436,0},{43437,14083},{43440,14244},{41415,14486},{43515,14470},{43472,0},{43475,0},{42999,14492},{39937,14493},{40113,14493},{43454,0},{42781,14491},{43457,0},{43425,14497},{43488,12644},{43368,14498},{43497,14277},{43502,0},{42640,14507},{39324,14489},{43469,0},{43505,0},{43455,14443},{43511,0},{43508,0},{43514,0},{43524,13960},{43590,14327},{43254,14528},{43527,14443},{38919,14510},{42891,14511},{43538,0},{43541,0},{43544,0},{43540,13936},{43323,14515},{43549,13575},{43548,13575},{43559,0},{43556,0},{43562,0},{43565,0},{43574,0},{43571,0},
{43578,13523},{43580,0},{43575,13096},{43583,0},{43526,0},{43446,14515},{43587,14027},{43595,0},{42859,14533},{43122,14537},{43667,0},{43607,0},{43610,0},{39607,14535},{43614,13936},{43622,0},{42433,14532},{43625,0},{43631,0},{43635,14544},{43669,14506},{43710,14168},{43669,14571},{43077,14547},{43649,0},{43647,13323},{43652,0},{40743,14551},{43658,0},{43662,13856},{43443,14553},{39606,14561},{43020,14562},{43679,0},{43691,0},{43694,0},{43676,0},{43698,14305},{43527,14560},{43702,14450},{42862,14558},{43707,14546},{43718,0},{43699,14305},{43678,14367},{40134,14574},{43727,0},{43733,0},{43721,0},{43671,14073},{43701,14450},{43602,14560},{43802,0},{43745,0},{43210,14582},{43748,0},{43101,14583},{40537,14584},{43617,14585},{40719,14584},{43758,14347},{43769,0},{43766,0},{43763,0},{42924,14589},{43775,0},{43776,12875},{43780,14573},{43778,0},{43784,0},{43734,14596},{43787,0},{43779,14598},{43797,14109},{43805,0},{43740,14624},{39618,14603},{43814,0},{43820,0},{43209,14605},{43813,13727},{43823,0},{43822,14101},{43829,0},{43826,0},{43806,14451},{43832,0},{42814,14611},{43836,14517},{43050,14613},{43844,0},{43845,14522},{43850,0},{38799,14618},{43857,13738},{43859,0},{43791,14621},{43853,0},{43868,0},{43877,0},{43212,14628},{40240,14626},{43880,0},{43881,13781},{43889,0},{42427,14630},{43893,14101},{43897,14608},{42426,14630},{43898,0},{43411,14635},{43146,14636},{43294,14638},{43919,0},{43053,14640},{42193,14625},{43925,0},{43931,0},{43934,0},{43935,13799},{42339,14649},{42987,14649},{42846,14649},{43955,0},{40239,14652},{43961,0},{43952,0},{41838,14655},{43970,0},{43971,14345},{43977,14634},{43976,0},{43972,14380},{43967,0},{43982,0},{43912,14661},{43988,0},{43985,0},{43770,14663},{43981,14231},{43994,0},{43990,14590},{37938,14662},{43996,12151},{43926,14666},{43995,12151},{43644,14667},{43951,14444},{44004,14576},{44009,0},{42960,14649},{42480,14649},{43179,14649},{44012,0},{44015,0},{41197,14673},{41370,14673},{44024,0},{43962,14675},{43332,14676},{43899,14678},{44033,0},{44042,0},{44039,0},{44048,0},{44052,14189},{41839,14683},{44057,0},{37714,14686},{43911,14687},{44068,14664},{44067,14690},{44078,0},{44066,0},{44084,0},{44087,0},{44096,0},{44093,0},{43938,14699},{44102,0},{44105,0},{44108,0},{44018,0},{44109,14119},{36834,14725},{43737,14704},{44117,0},{43621,14708},{44126,0},{40266,14707},{44120,0},{44116,13995},{44129,0},{44043,14711},{44136,14713},{44132,0},{44147,0},{44150,0},{44064,14717},{44159,0},{44162,0},{44073,14717},{44165,0},{38130,14722},{44088,14724},{44097,14726},{44181,13903},{44183,0},{43428,14729},{43869,14731},{42717,14730},{43167,14732},{42232,14733},{44207,0},{39301,14759},{41068,14761},{42721,14760},{44208,13995},{43695,14738},{44211,14225},{44219,0},{42001,14739},{43407,14742},{44224,14710},{44225,0},{44231,0},{44212,14225},{44234,0},{42822,14746},{44246,0},{43263,14735},{44253,14750},{42364,14326},{44346,14735},{42364,14783},{44080,14753},{44261,0},{44264,0},{44270,0},{44267,0},{41856,14757},{41575,14735},{41401,14758},{44204,0},{44288,0},{44357,0},{41733,14763},{44287,8656},{44300,0},{44299,8568},{23326,14792},{44303,0},{42168,14770},{44306,0},{44309,0},{44320,14407},{44318,0},{44319,14407},{44328,14775},{44322,14745},{44330,0},{44155,14778},{44247,14779},{44336,0},{44342,0},{44340,8116},{42360,14763},{44354,0},{24346,14780},{44079,14786},{24349,14780},{43860,14787},{44364,14789},{42066,14763},{44317,14542},{24420,14764},{44297,0},{44372,0},{22374,14791},{44376,7775},{44375,0},{44293,8140},{44382,8636},{44390,0},{42366,14824},{44391,14793},{44394,8197},{22375,14830},{44392,14734},{44220,14801},{44408,0},{44409,14804},{43626,14806},{44416,14744},{44426,0},{44429,0},{44423,0},{44415,14777},{44229,14810},{44435,0},{44154,14813},{44438,0},{25266,14814},{44447,0},{44450,0},{44451,14435},{44459,0},{44465,0},{44471,0},{44477,0},{44474,0},{24549,14826},{44489,0},{44486,0},{24550,14826},{44498,0},{44499,14017},{44504,0},{44510,0},{25323,14862},{44516,0},{44507,0},{44314,14839},{44519,0},{44525,0},
{42186,14840},{44528,0},{44531,0},{44148,14844},{44535,14846},{44543,0},{44546,0},{44523,14682},{44163,14849},{44547,14750},{44552,0},{44558,0},{44553,14750},{25275,14853},{43239,14854},{44567,0},{44184,14857},{42834,14858},{25893,14859},{44580,14068},{44585,0},{44513,0},{24501,14863},{44595,8657},{38959,14866},{25962,14868},{44609,0},{44652,14751},{44385,14870},{44618,0},{44313,14873},{42454,14875},{44142,14874},{43704,14876},{44627,0},{44639,0},{44648,0},{44652,14851},{44651,0},{25872,14886},{44663,0},{44666,0},{37726,14889},{44455,14888},{44675,0},{39646,14892},{44684,0},{44681,0},{44385,14870},{24471,14895},{44457,14870},{44693,0},{44696,0},{44398,14898},{24585,14899},{44756,0},{44688,14901},{44699,0},{44777,0},{44704,14837},{44711,0},{44593,14900},{43227,14904},{44717,0},{44719,14494},{44721,14877},{43138,14904},{44726,0},{44720,0},{44724,14878},{42453,14909},{44723,0},{44631,14911},{44738,0},{44655,14913},{44709,14902},{44744,0},{44745,14752},{44454,14916},{23229,14917},{44742,8625},{23230,14917},{44706,14795},{26706,14918},{44466,14919},{23185,14920},{44702,0},{44774,0},{44397,14927},{44847,14948},{44786,0},{44789,0},{44804,0},{24586,14932},{44613,14933},{44810,0},{44887,14800},{44613,14935},{44824,14879},{44795,0},{44813,0},{44825,0},{44822,0},{44834,0},{44241,14942},{44829,14471},{44837,0},{25281,14951},{44861,0},{44868,14890},{44865,8844},{44864,0},{44867,0},{44874,8763},{44854,8427},{44879,0},{44886,14800},{44880,14922},{44592,14961},{44880,14922},{44881,14893},{44869,14855},{44889,14970},{24609,14966},{44913,14967},{44905,14897},{44907,14964},{44910,14965},{44990,0},{44987,0},{44931,14880},{44814,14975},{44928,14910},{44934,14881},{44939,0},{44942,0},{44841,14973},{44894,0},{44948,0},{24396,14986},{44957,0},{44954,0},{44709,14965},{44967,14930},{44859,14989},{26292,14989},{25983,14989},{26541,14989},{26295,14989},{44909,0},{44481,14990},{44891,0},{44975,0},{44915,0},{44981,0},{44916,14933},{44973,14967},{44906,0},{44978,0},{44481,14990},{44967,14967},{44993,0},{44494,14998},{44996,0},{45092,0},{45102,14867},{45095,0},{45024,14947},{44997,15000},{44818,15006},{45020,0},{45017,0},{45026,0},{45027,14844},{44943,15010},{45033,15008},{45023,0},{44709,15012},{45016,14973},{44385,15012},{44949,15013},{44982,15003},{44461,15014},{26703,15015},{45044,0},{45059,0},{45051,14902},{45051,15012},{45072,14965},{26535,15015},{45077,0},{45096,14926},{45012,15003},{12183,15000},{44999,0},{45005,0},{45173,0},{45087,15036},{45113,0},{44493,15038},{44922,15041},{45006,15039},{45207,14974},{45134,0},{44817,15045},{45144,14946},{43486,15049},{44838,15047},{45138,14973},{45149,0},{45161,0},{45158,0},{45164,0},{45170,0},{45176,0},{44460,15059},{44964,15055},{45165,8844},{45180,15013},{45191,0},{45188,0},{45195,14921},{26820,15055},{45200,0},{45192,14930},{45122,0},{44763,15048},{45203,0},{45003,15072},{45000,15073},{45224,0},{45290,0},{45227,0},{44706,15076},{45228,15070},{45048,15088},{45225,15072},{45201,15071},{45198,15073},{45303,15100},{45021,15078},{45234,14973},{45239,0},{45245,0},{45248,0},{45251,0},{43485,15084},{44907,15086},{45261,14856},{26709,15089},{45272,0},{45275,0},{45213,14930},{45278,0},{45282,15026},{45213,14930},{45230,0},{45231,15041},{45218,0},{45381,15020},{45390,15104},{45000,15107},{45329,0},{45216,15131},{44913,15104},{45398,0},{45330,15102},{45399,14971},{45348,15046},{45347,0},{45318,14867},{45344,0},{45348,15118},{45357,14911},{45360,15051},{45365,0},{45312,15003},{45332,0},{45374,0},{45354,14647},{45363,14647},{45192,15128},{44913,15109},{45336,14930},{45341,0},{45126,15116},{45315,15159},{45216,15137},{45416,0},{45348,15154},{45428,0},{45437,0},{45431,0},{45432,15117},{45126,15146},{45480,15146},{45456,15071},{45378,15153},{45402,8765},{45467,0},{45390,15151},{45470,0},{45410,0},{45402,8193},{45312,15140},{45473,0},{45425,0},{45483,15111},{44997,15163},{45483,15111},{45483,15111},{45504,15167},{45144,15166},{45240,15166},{45507,15147},{45512,0},{45515,0},{45129,15163},{43944,15174},{45528,8627},
{45531,15098},{45126,15164},{45539,0},{45540,15027},{45483,15197},{45438,15196},{45563,0},{45560,0},{45566,0},{45569,0},{45558,15190},{45573,15125},{45602,0},{45599,0},{45606,15118},{45150,15201},{45444,15203},{45244,15205},{45620,0},{45462,15202},{45291,15206},{45597,15110},{45012,15208},{45474,15208},{45632,0},{45629,0},{44530,15211},{45336,15208},{45054,15213},{45636,14967},{45639,14930},{45644,0},{45650,0},{45579,15226},{45681,15181},{45665,0},{45447,15219},{45660,15204},{45671,0},{45677,0},{45702,14983},{45684,15207},{45255,15230},{45696,15150},{45133,15231},{45255,15230},{45279,15233},{45710,0},{44074,15236},{43852,15238},{45711,15239},{45718,15240},{45726,15108},{44253,15242},{44073,15242},{44850,15242},{44343,15242},{45731,0},{45735,15212},{44871,15242},{45735,15212},{45637,15245},{45183,15242},{45672,15246},{44706,15242},{45228,15242},{44913,15242},{45779,0},{45743,0},{45780,14902},{45204,15252},{45783,15108},{45746,0},{45749,0},{45752,0},{45755,0},{45636,15252},{45759,15244},{45764,0},{45733,15255},{45768,15246},{45773,0},{45774,15244},{45739,15256},{44892,15262},{45789,15137},{45309,15262},{45800,0},{44436,15267},{45804,14723},{45486,15263},{44856,15270},{45366,15269},{45735,15271},{45369,15273},{45817,15243},{45825,15274},{45816,15252},{45795,15073},{45823,15275},{45828,15095},{45794,0},{45885,15129},{44356,15279},{44515,15289},{45411,15296},{45330,15280},{44785,15287},{44056,15284},{44161,15283},{45085,15285},{44434,15286},{45872,0},{45845,0},{45555,15280},{45495,15282},{45546,15300},{45915,15035},{45549,15308},{44809,15297},{45929,0},{45912,15244},{45909,15252},{45453,15305},{45894,14870},{45864,15306},{44385,15306},{45910,15292},{45873,15307},{45894,15299},{45066,15304},{45909,15306},{45879,15304},{45915,14967},{45874,15307},{45576,15308},{45831,15302},{45930,15198},{45903,15184},{45417,15302},{46001,0},{45941,0},{45960,14967},{45948,15303},{45935,0},{45945,15208},{44803,15332},{45906,15314},{45951,15304},{45954,14967},{45963,15288},{45816,15317},{45972,15314},{45969,15322},{45981,15314},{45978,15299},{45975,15299},{45967,15323},{45969,15303},{44769,15320},{45993,15305},{45992,0},{45651,15339},{46002,15347},{46011,15338},{45960,15338},{45225,15336},{45654,15339},{44986,15340},{45957,15342},{45960,15338},{46029,15272},{45666,15339},{46035,15338},{45666,15339},{45913,15346},{46041,15302},{46053,15305},{46050,15349},{45585,15356},{46062,15338},{45687,15335},{45907,15375},{46092,15365},{46073,0},{46091,0},{46077,15358},{45001,15361},{45112,15374},{45895,15360},{46088,0},{45919,15366},{46103,0},{45898,15368},{46107,15018},{46044,15370},{46080,14967},{46113,14971},{46111,15348},{46113,14967},{46059,15372},{46080,14971},{46125,15302},{45172,15376},{46170,15386},{46196,0},{45099,15379},{45405,15378},{46148,0},{46023,15384},{45618,15387},{45943,15397},{46032,15380},{46131,15386},{46135,15305},{46141,15381},{45645,15387},{46169,0},{45519,15378},{46171,15386},{45312,15380},{45984,15378},{46065,15384},{46176,15391},{46134,14971},{45525,15378},{46140,15312},{45705,15385},{46185,15400},{44989,15401},{46119,15417},{46134,15407},{46260,15421},{46209,15383},{46248,15415},{46217,0},{46147,15418},{46200,14930},{46258,15341},{46197,15384},{46218,15071},{46235,0},{46239,15407},{46198,15384},{46188,15403},{45723,15412},{46212,15380},{46134,15407},{44968,15422},{45984,15424},{46291,14930},{46326,15178},{46284,15406},{46323,15424},{45297,15430},{46275,15400},{46290,14930},{46273,15429},{46296,14989},{46295,0},{46278,15071},{46302,15388},{45516,15436},{46201,15426},{46165,15434},{26293,15440},{46317,15394},{46368,15377},{46332,15380},{46382,0},{46341,15448},{46355,0},{46224,15445},{46150,15461},{46299,15454},{46336,15455},{46356,15410},{46272,15445},{21082,15457},{46350,15023},{46350,15023},{45063,15450},{45063,15450},{46369,15377},{23292,15450},{46349,0},{46269,15467},{45582,15480},{46395,7751},{26565,15473},{46420,15437},{45165,15466},{46278,15464},{46227,15468},{23439,15465},{46305,15471},{46393,15427},{46386,15406},{46416,15410},
{21675,15473},{23301,15473},{23292,15473},{21675,15473},{46387,15406},{46206,15463},{23415,15465},{46392,15473},{25405,15482},{46460,0},{46359,15487},{46464,15469},{46395,15481},{46476,15409},{46350,15493},{46485,15491},{46488,15491},{46428,15493},{46425,15493},{46422,15493},{46482,15491},{46228,15492},{46431,15493},{46491,15491},{46395,15481},{46479,15023},{46437,15501},{46499,0},{46476,15505},{46564,15443},{46524,15491},{46509,14987},{46514,0},{46470,15505},{46521,15433},{46560,15519},{46300,15507},{46530,15511},{46542,15512},{46527,15513},{46551,15516},{46507,15446},{46607,0},{15883,15534},{15655,15533},{17650,15531},{46575,8764},{46410,15523},{46581,15462},{46566,15410},{46584,15454},{46363,15528},{16900,15529},{46231,15522},{16900,15532},{46569,15485},{26589,15524},{46452,15523},{46613,0},{46646,0},{46638,5294},{46647,15550},{46443,15536},{46443,15536},{46622,0},{46608,7751},{46623,15491},{46626,15470},{46629,15452},{46630,15452},{46627,15470},{46405,15544},{23364,15536},{46572,15551},{46616,0},{46443,15536},{46449,15557},{19093,15567},{46467,15556},{46674,8844},{46518,15559},{46680,15462},{46683,15523},{46687,15458},{46570,15561},{46656,15553},{46698,15518},{46500,15569},{46667,0},{21006,15582},{4672,15572},{5788,15570},{46713,345},{46719,15526},{4678,15580},{5788,15574},{46725,15527},{46474,15576},{3643,15581},{46751,0},{18219,15585},{46760,0},{46778,0},{24580,15587},{46754,0},{25362,15592},{46752,31},{46766,0},{46614,15593},{46644,15593},{46782,15596},{46785,51},{46611,15593},{46797,15600},{46767,15593},{46764,15593},{46793,0},{46779,15596},{46794,15593},{46704,15601},{46617,15593},{46820,0},{46811,0},{46662,15604},{46817,0},{46808,0},{46737,15613},{46815,143},{46770,15610},{46835,0},{46826,0},{46838,0},{46829,0},{46831,15590},{46844,0},{46853,0},{46866,15536},{46865,0},{46609,15622},{46821,15620},{3675,15629},{519,15631},{46854,15629},{46456,15630},{46901,0},{420,15629},{46910,0},{46917,15631},{46893,15634},{46779,15638},{46905,15616},{46905,15623},{46905,15625},{46905,15624},{46905,15626},{46905,15615},{46905,15619},{46923,15628},{46929,15636},{46940,0},{46946,0},{46943,0},{46937,0},{46920,143},{46925,0},{46952,0},{46934,0},{46931,0},{46949,0},{46983,143},{46956,15632},{46956,15627},{46956,15565},{46956,15459},{46956,15414},{46956,15438},{46956,15547},{46956,15515},{46956,15530},{46956,15545},{46956,15478},{46956,15498},{46956,15393},{46956,15591},{46956,15578},{46956,15577},{46956,15352},{46956,15563},{46956,15564},{46956,15278},{46956,15329},{46956,15294},{46956,15637},{46955,0},{46991,0},{47064,15642},{435,15688},{47069,0},{47072,0},{1,0},{47080,15683},{47080,15685},{47080,15684},{47080,15680},{47080,15676},{47080,15668},{47080,15669},{47080,15667},{47080,15674},{47080,15675},{47080,15671},{47080,15672},{47080,15673},{47080,15666},{47080,15670},{47080,15681},{47080,15679},{47080,15682},{47080,15678},{47080,15677},{47080,15665},{47080,15664},{47080,15686},{47080,15656},{47080,15653},{47080,15654},{47080,15655},{47080,15660},{47080,15659},{47080,15662},{47080,15687}
