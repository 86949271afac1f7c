// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{92,0},{80,0},{77,0},{86,0},{83,0},{89,0},{74,0},{71,0},{78,25},{72,23},{84,27},{90,29},{72,23},{8,0},{23,0},{14,0},{17,0},{5,0},{11,0},{2,0},{65,0},{62,0},{59,0},{68,0},{32,0},{35,0},{38,0},{29,0},{20,0},{26,0},{50,0},{56,0},{53,0},{47,0},{41,0},{75,24},{78,27},{84,29},{44,0},{117,38},{111,32},{108,35},{102,33},{120,41},{129,42},{118,24},{159,54},{165,52},{168,57},{174,66},{183,59},{189,64},{195,62},{150,45},{147,51},{144,47},{138,60},{207,68},{201,23},{95,0},{213,74},{219,72},{228,75},{233,0},{232,23},{258,85},{252,83},{246,80},{261,88},{243,70},{234,79},{267,90},{276,93},{284,0},{285,39},{290,0},{294,102},{297,101},{291,100},{314,0},{320,0},{312,91},{330,109},{324,103},{315,111},{342,115},{341,0},{42,116},{348,91},{39,116},{36,116},{348,16},{348,22},{348,20},{348,18},{348,15},{348,21},{348,17},{348,19},{0,116},{12,116},{18,116},{6,116},{33,116},{30,116},{27,116},{24,116},{3,116},{21,116},{15,116},{9,116},{350,0},{353,0},{360,144},{389,0},{374,0},{383,0},{377,0},{392,0},{380,0},{386,0},{371,0},{372,125},{381,126},{384,130},{369,129},{396,134},{399,131},{393,122},{417,135},{411,139},{408,131},{399,139},{417,119},{416,0},{396,122},{423,135},{417,121},{420,132},{402,121},{426,141},{426,132},{411,141},{393,135},{408,139},{393,121},{417,122},{426,121},{411,138},{396,121},{422,0},{393,119},{426,122},{425,0},{401,0},{420,139},{393,138},{411,131},{402,138},{426,140},{399,134},{396,141},{399,136},{420,131},{399,132},{398,0},{420,138},{402,122},{417,138},{399,137},{426,138},{399,138},{420,136},{426,136},{408,134},{399,135},{408,138},{408,141},{420,137},{426,133},{420,134},{420,141},{420,133},{411,134},{399,141},{426,134},{417,134},{396,135},{408,132},{420,135},{423,122},{423,138},{426,137},{396,138},{411,136},{399,121},{420,121},{411,121},{399,122},{426,135},{411,132},{426,119},{414,119},{402,135},{423,121},{414,135},{396,119},{419,0},{428,0},{420,122},{423,119},{402,119},{395,0},{410,0},{411,135},{413,0},{368,0},{407,0},{408,121},{414,122},{365,0},{411,122},{399,119},{414,121},{420,119},{408,135},{404,0},{359,0},{408,122},{363,135},{367,121},{411,119},{408,119},{405,122},{405,119},{363,122},{366,119},{363,119},{430,25},{430,27},{429,91},{417,244},{459,146},{381,151},{387,153},{369,146},{444,151},{384,150},{372,149},{390,152},{375,147},{447,147},{378,148},{456,150},{462,156},{471,155},{474,159},{503,0},{486,163},{480,161},{499,165},{488,0},{494,0},{521,0},{509,0},{510,131},{518,0},{412,181},{542,0},{556,189},{547,177},{559,175},{575,0},{485,0},{522,131},{561,188},{592,195},{563,0},{638,0},{397,159},{626,0},{504,167},{647,0},{654,173},{417,234},{409,227},{680,0},{477,135},{687,132},{507,183},{684,131},{592,141},{663,208},{645,170},{592,142},{559,141},{547,138},{721,134},{718,134},{559,140},{736,135},{405,248},{736,137},{366,249},{742,138},{740,0},{750,133},{757,119},{761,0},{406,255},{753,246},{768,253},{783,138},{782,0},{788,0},{773,0},{780,229},{752,0},{797,0},{794,0},{363,248},{792,261},{803,0},{800,0},{806,0},{357,252},{809,0},{132,270},{811,44},{357,258},{402,259},{556,134},{555,258},{840,279},{825,276},{462,279},{837,283},{471,284},{831,284},{846,281},{846,285},{465,274},{843,283},{834,276},{852,276},{831,278},{468,282},{471,278},{840,285},{465,277},{462,285},{834,274},{468,283},{825,274},{822,284},{837,282},{462,281},{840,281},{825,157},{825,277},{849,285},{840,156},{465,276},{858,287},{866,0},{872,0},{875,0},{868,168},{877,171},{880,163},{895,297},{889,183},{492,288},{916,160},{923,0},{913,306},{901,299},{904,193},{905,0},{928,188},{891,172},{918,191},{926,0},{908,0},{911,0},{937,221},{943,170},{878,0},{941,0},{651,311},{947,0},{955,317},{962,0},{950,0},{971,0},{977,0},{974,0},{980,0},{989,0},{986,0},{983,0},{992,0},{995,0},{393,330},{998,0},{1007,0},{1001,0},{1004,0},{1012,251},{1010,0},{1016,0},{1019,0},{1021,256},{772,341},{1028,0},{1036,229},{1031,0},{1034,0},{1046,0},{1048,335},{1005,250},{1054,261},{1056,266},{1061,0},{1066,352},{1079,0},{1082,0},{285,360},{1077,26},{1085,0},{1088,0},{1091,0},{1094,0},{821,0},{1008,439},
{1116,383},{1116,366},{1146,377},{1122,375},{1110,384},{1116,375},{1140,373},{1122,376},{1104,379},{1107,384},{1116,369},{1101,379},{858,373},{1095,385},{1116,381},{1152,377},{1104,376},{1134,381},{858,370},{1125,371},{1164,376},{1179,377},{1164,369},{1179,391},{858,394},{1119,392},{1122,381},{858,390},{858,379},{1179,287},{1095,373},{1098,392},{1179,369},{1155,371},{1095,391},{1164,379},{1095,375},{1095,366},{1134,386},{1113,376},{1140,287},{1095,379},{1167,381},{1095,390},{1101,390},{1140,377},{1146,390},{1146,376},{1140,394},{1146,369},{1140,391},{1140,383},{1137,392},{1134,370},{1146,370},{1140,381},{1134,376},{1146,383},{1167,287},{858,386},{1134,377},{1161,381},{1125,384},{1107,371},{1182,371},{1167,370},{1122,391},{1158,384},{1116,390},{1155,384},{1146,394},{1173,371},{1161,376},{1164,386},{1098,371},{1152,376},{1146,391},{1146,287},{1134,385},{1134,373},{1170,384},{1167,383},{1161,377},{1134,379},{861,384},{1140,386},{1179,373},{1104,369},{1143,392},{1095,386},{1095,377},{1095,381},{1164,373},{1149,384},{1167,375},{1098,384},{1167,390},{1101,391},{1104,370},{1167,369},{1104,373},{1119,384},{1146,366},{1104,381},{1167,376},{1179,370},{1128,392},{1170,392},{1107,387},{1134,390},{858,381},{1101,370},{1095,369},{1125,387},{1161,390},{1146,385},{1098,387},{1182,384},{1125,392},{1164,377},{1146,386},{858,377},{1137,387},{1095,383},{858,385},{1161,386},{1179,366},{1179,390},{1164,383},{1164,394},{1146,373},{1167,379},{1140,390},{1095,394},{1134,383},{1101,287},{1143,384},{1164,391},{1101,383},{1161,287},{1167,377},{858,375},{1122,383},{861,392},{1187,0},{1158,392},{1110,387},{1095,370},{858,383},{1164,390},{1101,386},{1179,386},{1113,377},{1101,381},{1122,385},{1116,386},{1170,371},{1101,376},{1095,376},{1116,370},{1104,375},{1116,373},{1179,376},{1158,371},{1149,371},{1104,386},{1143,371},{1179,381},{1116,391},{861,371},{1122,373},{1122,366},{1116,379},{1137,371},{1122,379},{1101,375},{858,376},{1179,394},{1179,383},{1122,377},{1101,369},{1122,287},{1107,392},{1173,384},{1116,287},{1104,377},{1167,394},{1104,287},{1134,391},{1179,385},{1182,392},{1164,366},{1101,366},{1164,287},{1167,366},{1149,392},{1122,394},{1182,387},{1110,392},{1104,391},{1140,370},{1167,385},{1140,379},{1104,366},{1173,387},{1164,381},{1146,379},{1134,366},{1134,369},{1104,385},{1140,369},{1134,287},{1146,375},{1140,375},{1101,394},{1101,377},{1155,392},{1122,390},{1101,385},{1155,387},{1104,390},{1134,394},{1119,371},{1140,376},{1131,392},{1095,287},{1116,377},{1110,371},{1137,384},{1104,383},{1122,370},{1134,375},{1122,369},{1161,373},{1116,385},{1116,394},{1173,392},{1167,391},{1104,394},{1140,385},{1146,381},{1164,385},{1164,370},{1179,375},{858,366},{1101,373},{1122,386},{1140,366},{858,391},{1188,294},{1201,184},{1198,179},{1204,190},{534,398},{528,397},{1167,373},{1116,376},{1207,192},{1210,199},{1199,0},{1225,204},{858,369},{1205,0},{1229,0},{600,406},{1214,0},{1208,0},{1223,0},{1216,206},{1228,211},{579,410},{1217,0},{1226,0},{1238,0},{1235,0},{1241,0},{1252,230},{513,419},{1265,0},{1211,0},{1202,0},{1149,387},{1179,379},{1253,0},{1256,0},{1270,237},{1272,300},{1167,386},{1278,329},{1296,328},{1296,431},{1299,239},{981,431},{1287,329},{969,430},{1278,430},{1302,327},{393,433},{1271,0},{1308,336},{1308,441},{1314,437},{996,441},{1321,228},{1164,375},{1326,318},{1322,0},{1334,0},{1333,445},{1343,0},{1342,234},{1347,347},{1354,263},{1355,0},{1358,0},{1361,0},{1364,0},{1370,0},{1372,26},{1379,0},{814,460},{1380,271},{357,463},{1307,0},{232,458},{70,785},{1433,0},{1442,0},{1415,0},{1409,0},{1412,0},{1460,0},{1454,0},{1439,0},{1436,0},{1457,0},{1421,0},{1403,0},{1451,0},{1448,0},{1445,0},{1418,0},{1406,0},{1427,0},{1424,0},{1430,0},{1604,0},{1559,0},{1619,0},{1529,0},{1565,0},{1571,0},{1586,0},{1568,0},{1547,0},{1556,0},{1562,0},{1610,0},{1535,0},{1589,0},{1538,0},{1523,0},{1574,0},{1496,0},{1499,0},{1598,0},{1511,0},{1514,0},{1577,0},{1487,0},{1493,0},{1469,0},{1484,0},{1580,0},{1550,0},{1517,0},{1583,0},{1553,0},{1544,0},{1508,0},{1463,0},
{1478,0},{1532,0},{1505,0},{1526,0},{1541,0},{1490,0},{1601,0},{1481,0},{1616,0},{1625,0},{1472,0},{1607,0},{1502,0},{1466,0},{1475,0},{1520,0},{1613,0},{1595,0},{1622,0},{1592,0},{1697,0},{1832,0},{1829,0},{1820,0},{1826,0},{1910,0},{1664,0},{1898,0},{1712,0},{1703,0},{1904,0},{1706,0},{1916,0},{1895,0},{1847,0},{1886,0},{1844,0},{1682,0},{1727,0},{1748,0},{1853,0},{1913,0},{1688,0},{1889,0},{1892,0},{1733,0},{1934,0},{1784,0},{1877,0},{1760,0},{1736,0},{1739,0},{1787,0},{1781,0},{1874,0},{1796,0},{1790,0},{1775,0},{1865,0},{1841,0},{1823,0},{1772,0},{1907,0},{1793,0},{1637,0},{1766,0},{1763,0},{1805,0},{1628,0},{1700,0},{1721,0},{1715,0},{1751,0},{1640,0},{1883,0},{1709,0},{1880,0},{1754,0},{1694,0},{1931,0},{1724,0},{1814,0},{1718,0},{1817,0},{1634,0},{1631,0},{1862,0},{1871,0},{1856,0},{1838,0},{1859,0},{1658,0},{1799,0},{1652,0},{1811,0},{1643,0},{1646,0},{1928,0},{1673,0},{1802,0},{1670,0},{1691,0},{1850,0},{1868,0},{1676,0},{1925,0},{1685,0},{1679,0},{1655,0},{1649,0},{1919,0},{1901,0},{1769,0},{1778,0},{1757,0},{1661,0},{1730,0},{1745,0},{1922,0},{1808,0},{1667,0},{1742,0},{1985,0},{2066,0},{2081,0},{2000,0},{2009,0},{1958,0},{2006,0},{2030,0},{2021,0},{2039,0},{2012,0},{2015,0},{2075,0},{1940,0},{1946,0},{2003,0},{2069,0},{1955,0},{1964,0},{2051,0},{2054,0},{2063,0},{1952,0},{2060,0},{2087,0},{2036,0},{1991,0},{2033,0},{2024,0},{2084,0},{2072,0},{2042,0},{1994,0},{1967,0},{2027,0},{1988,0},{2018,0},{2045,0},{1949,0},{1997,0},{1982,0},{1976,0},{1973,0},{1970,0},{2078,0},{2057,0},{1979,0},{2048,0},{1961,0},{1943,0},{1937,0},{2126,0},{2117,0},{2111,0},{2135,0},{2138,0},{2120,0},{2123,0},{2129,0},{2114,0},{2132,0},{2102,0},{2108,0},{2105,0},{2099,0},{2093,0},{2096,0},{2090,0},{2144,0},{2150,0},{2141,0},{2147,0},{886,716},{2168,0},{2152,198},{910,721},{2158,196},{2155,194},{907,720},{2176,203},{2156,0},{2171,0},{2174,0},{2159,0},{633,730},{570,729},{576,733},{2182,207},{537,726},{2193,212},{2206,213},{2207,0},{2186,0},{2163,416},{2183,0},{618,738},{2160,415},{931,731},{2210,0},{2213,0},{612,739},{2177,0},{2234,0},{2230,236},{2153,0},{2235,422},{597,746},{552,747},{2249,0},{2231,0},{690,750},{2246,0},{2261,0},{2257,241},{2264,0},{2270,0},{2273,0},{2265,326},{2285,0},{2288,0},{2277,331},{2274,244},{2258,0},{2309,0},{2303,0},{2298,334},{711,765},{2315,0},{2311,254},{2306,0},{2318,0},{2312,0},{2304,262},{684,773},{2322,445},{2327,0},{1038,768},{2333,0},{2332,778},{2336,0},{702,776},{2339,0},{789,780},{1050,781},{1062,783},{2357,0},{2356,458},{336,786},{2363,0},{2366,0},{2364,29},{2364,28},{2355,39},{2282,0},{2291,0},{2355,458},{1400,0},{2375,0},{2361,39},{2362,23},{2374,106},{285,787},{1080,787},{2397,801},{2430,796},{2424,803},{2400,811},{2421,812},{2415,794},{2391,806},{2385,809},{2379,802},{2412,798},{2457,860},{2478,822},{2472,852},{2601,858},{2442,821},{2529,817},{2553,855},{2493,850},{2577,829},{2496,835},{2448,820},{2475,853},{2511,803},{2514,836},{2469,863},{2571,861},{2526,854},{2445,833},{2547,865},{2577,817},{2598,813},{2490,847},{2454,827},{2571,834},{2532,864},{2523,845},{1833,862},{2817,941},{2730,923},{2718,944},{2547,890},{2751,919},{2901,914},{2508,905},{2661,879},{2727,935},{2418,864},{2409,924},{2667,942},{2634,865},{2781,960},{2880,898},{2877,812},{2466,798},{2424,823},{2778,935},{2631,900},{2841,899},{2724,886},{2484,861},{2799,875},{2640,948},{2688,863},{2847,965},{2676,883},{2802,838},{2430,931},{2448,850},{2652,868},{2757,852},{2607,883},{2658,870},{2529,895},{2493,912},{1833,907},{2871,796},{2472,925},{2748,955},{2835,968},{2655,929},{2787,809},{2898,912},{2814,918},{2544,958},{2745,932},{2748,940},{2886,941},{2685,878},{2907,884},{2850,891},{2505,956},{2622,864},{2853,877},{2658,855},{2790,894},{2613,936},{2553,936},{2883,886},{2385,865},{2760,819},{2607,876},{2673,801},{2637,964},{2829,797},{2697,946},{2733,845},{2877,901},{2397,936},{2907,880},{2748,913},{2646,904},{2862,888},{2766,867},{2880,948},{2709,821},{2550,834},{2562,874},{2799,856},{2514,929},{2907,963},{2646,897},{2856,865},{2706,921},
{2829,881},{2784,876},{2442,982},{2511,1013},{2967,848},{2934,1001},{2517,872},{2967,983},{2580,1008},{2670,1010},{2973,958},{2574,945},{3060,901},{2877,904},{2871,884},{2556,1007},{2601,1017},{2670,819},{2928,868},{2907,975},{2661,1010},{2436,920},{3036,924},{2922,953},{2547,986},{2955,990},{2490,998},{2784,988},{2688,988},{2874,822},{2643,876},{2565,981},{2763,990},{3027,818},{2946,980},{2913,993},{2583,846},{2571,844},{2700,1011},{2526,940},{2904,999},{2784,951},{2532,1001},{3000,934},{2955,995},{2799,992},{3000,983},{2913,994},{2562,996},{2586,965},{2985,920},{2883,947},{2937,997},{2865,944},{3045,866},{2661,968},{2463,955},{2640,796},{2523,950},{3048,945},{2988,972},{2535,884},{2928,1018},{2931,983},{2496,1002},{2961,819},{2952,819},{2922,923},{2805,997},{3018,913},{2697,925},{2445,901},{3102,1006},{2730,829},{3069,1033},{2493,838},{2577,1031},{2574,941},{3015,827},{3048,913},{3000,1011},{2541,871},{2745,795},{3090,810},{3105,887},{3087,861},{2931,1022},{2718,1028},{2454,952},{2631,931},{2511,1019},{2958,1018},{3090,887},{2484,871},{2541,1024},{2937,877},{2535,1014},{3078,989},{2904,993},{3060,1032},{2421,1014},{2799,889},{2796,975},{2922,1035},{2664,968},{3128,0},{3078,951},{519,1039},{3108,999},{3075,993},{2574,818},{2442,942},{2415,836},{2493,992},{3048,1031},{2985,928},{2715,956},{2472,1008},{2727,1033},{3123,952},{3120,871},{3133,201},{2385,1019},{3143,0},{2568,925},{2796,817},{3145,205},{3140,0},{3136,202},{3108,1021},{2730,1000},{2763,1003},{2883,982},{2481,948},{2547,911},{2931,867},{2988,870},{2853,833},{3129,953},{2550,895},{588,1053},{2877,983},{2667,870},{1234,1052},{2883,804},{2688,829},{2439,802},{3000,1007},{3146,0},{3148,174},{582,1050},{2817,803},{2478,942},{2424,970},{2502,879},{2781,999},{2907,811},{2445,832},{3084,1004},{3045,947},{2517,946},{3123,798},{2982,988},{2814,815},{2667,897},{2955,904},{2850,847},{2979,1007},{639,1061},{3181,224},{2472,854},{3030,881},{2469,844},{2763,973},{3172,222},{3176,0},{2769,1062},{3170,0},{2766,828},{2808,1037},{2823,850},{2661,963},{2553,807},{1242,1042},{2853,939},{2625,868},{3164,0},{3167,0},{3179,0},{3045,929},{2937,809},{2676,972},{2436,864},{2952,807},{2223,1052},{3200,0},{3153,852},{3202,1068},{3197,0},{3191,0},{621,1064},{2901,910},{925,1042},{2904,865},{3182,0},{3203,0},{2826,860},{2802,830},{2934,925},{2598,914},{3212,0},{3173,0},{3134,0},{3149,0},{609,1071},{3137,0},{2907,940},{594,1074},{3230,0},{2925,835},{2928,965},{3021,876},{3093,876},{3221,0},{1275,1072},{2748,988},{2391,946},{2670,977},{3220,238},{3227,0},{3048,919},{708,1079},{3243,1062},{2841,811},{3142,210},{3242,0},{3233,0},{2448,907},{3250,242},{2958,826},{2994,993},{3066,798},{3084,855},{2400,1084},{2508,990},{3120,950},{2940,1014},{3255,1086},{3105,920},{2931,887},{2961,981},{3114,809},{3264,1089},{2574,1084},{2862,1031},{3108,987},{2757,801},{2436,847},{2781,817},{2712,848},{3234,914},{3153,1017},{3108,1009},{2574,1028},{2526,950},{723,1092},{2796,943},{2424,885},{3282,1093},{3251,0},{3129,994},{2655,926},{2976,866},{2967,958},{2508,925},{2448,884},{2658,1004},{2790,939},{2505,883},{2955,1034},{2976,914},{2847,921},{2652,1037},{2553,897},{3069,900},{3290,0},{2433,981},{2520,909},{2913,807},{2721,1027},{3108,800},{2391,804},{2571,807},{3234,864},{2682,1001},{1329,1099},{3291,923},{2526,1008},{2670,875},{2973,898},{3120,889},{2886,822},{3296,0},{3295,772},{2922,966},{1017,1099},{2694,833},{2688,1021},{2667,988},{3243,994},{2427,1018},{3006,829},{2685,1022},{2724,832},{2481,799},{2871,905},{2649,1018},{2937,946},{3030,993},{3072,923},{2463,820},{3252,870},{762,1101},{2472,924},{2832,801},{2817,798},{2877,987},{2751,1025},{2418,1001},{3057,972},{2922,968},{2652,832},{2673,964},{3153,859},{2616,868},{2565,847},{2760,1017},{3102,905},{2445,970},{3105,932},{2550,843},{2472,992},{2601,807},{3015,956},{2733,1029},{2385,850},{3000,958},{2802,853},{2838,944},{2493,895},{2958,884},{3311,0},{2778,794},{2829,805},{2928,1003},{2550,942},{2439,1024},{2547,841},{2493,1033},{2427,925},{2913,907},{2415,806},
{2685,901},{2931,963},{2964,871},{2814,972},{2517,938},{3314,0},{2547,874},{2529,990},{2673,924},{2826,1012},{3006,1032},{2679,880},{2463,952},{2607,955},{3075,957},{2631,920},{2967,992},{3069,894},{3045,935},{2655,884},{2877,1007},{2907,900},{2574,894},{2691,898},{3105,952},{2430,1022},{2604,813},{2682,965},{2658,926},{2448,868},{2454,812},{2988,811},{2883,806},{3057,868},{2925,1037},{2601,865},{2754,1062},{2406,918},{3318,443},{3000,816},{2985,855},{2664,1025},{1833,960},{2862,814},{3153,976},{3063,944},{2442,1009},{2949,980},{2442,908},{3243,812},{2670,997},{3153,981},{2607,860},{3006,944},{3114,1023},{3123,885},{2712,953},{2955,804},{2517,929},{2766,978},{2463,997},{2490,893},{2796,897},{2913,998},{2886,895},{2550,866},{3087,923},{2562,927},{2571,846},{3063,957},{3099,883},{3332,0},{2703,836},{2967,914},{2751,955},{2679,1013},{2400,801},{2835,927},{2778,825},{2589,899},{2835,963},{2880,936},{2676,1084},{2589,861},{3234,832},{3291,794},{3129,1029},{2520,1013},{2490,997},{2721,921},{2484,1031},{2922,828},{3321,1109},{2736,920},{2877,968},{2793,836},{3060,1007},{2784,960},{2985,878},{2523,1017},{2835,844},{2391,825},{2622,945},{2922,980},{2949,1004},{2697,1022},{2955,949},{2706,929},{2967,1022},{2646,829},{3048,908},{2709,1024},{3075,802},{2502,993},{2577,866},{2568,1010},{2703,921},{3108,849},{3084,866},{2766,938},{3069,801},{2748,957},{2985,908},{2676,937},{2616,925},{2571,933},{2517,1015},{2790,935},{2550,853},{2523,979},{2526,936},{2952,928},{2484,820},{2859,853},{2718,905},{3057,847},{2850,875},{2787,798},{2523,1015},{2853,864},{2505,802},{2790,818},{2823,848},{2493,833},{2520,859},{2688,848},{2400,817},{2490,1027},{2529,1011},{2520,895},{3108,981},{2754,846},{2790,798},{2526,793},{2436,993},{3153,950},{2442,1035},{2682,868},{2841,882},{2706,1084},{3015,994},{3338,0},{2925,876},{3153,844},{2913,826},{2727,862},{3120,927},{2400,973},{3045,932},{2391,931},{2961,881},{2397,1007},{3105,812},{2670,954},{2436,997},{2484,993},{1360,1113},{2730,940},{2391,850},{2907,927},{2973,978},{3129,878},{2817,825},{1833,1062},{2802,1014},{3012,833},{2565,1012},{2862,879},{3012,998},{2460,953},{3003,822},{2682,844},{2907,859},{2667,821},{2670,1024},{2766,984},{3084,1007},{2901,829},{2973,944},{2655,870},{2904,1032},{2508,881},{2976,834},{2784,948},{2892,1017},{2553,833},{2535,1017},{3129,949},{2379,975},{2703,800},{2622,868},{2490,1004},{2442,796},{2895,880},{2973,986},{3078,1000},{3341,0},{3045,811},{2523,918},{2583,990},{2667,958},{2877,860},{2931,1017},{2718,872},{2454,823},{3048,846},{2517,1013},{2520,863},{2541,865},{2550,802},{2727,952},{2658,924},{2733,875},{2541,1031},{2646,801},{2514,1011},{2658,1003},{3069,844},{2472,961},{2850,869},{2718,1031},{2496,869},{2829,935},{2490,920},{2622,1034},{3120,948},{2562,981},{2811,1027},{2883,1022},{2913,873},{2391,921},{2622,918},{2907,835},{2886,1023},{2895,811},{2472,915},{2379,1032},{2529,884},{3243,910},{2637,813},{3129,1004},{3105,1013},{2679,913},{3057,998},{2478,988},{2484,904},{2601,878},{2781,855},{2424,853},{2733,1021},{2985,856},{2997,1032},{2556,860},{3063,850},{2544,1084},{2583,870},{3123,902},{2403,936},{2478,955},{3090,1014},{2835,926},{2907,854},{2433,973},{2568,796},{3057,865},{2736,819},{3078,897},{2952,983},{2415,1033},{2868,948},{2790,825},{3027,1011},{2811,907},{2676,943},{2751,837},{2619,866},{2829,817},{2949,981},{2922,940},{2454,805},{3072,1004},{2829,853},{3069,1001},{3252,822},{3099,996},{2457,1062},{2379,970},{2526,958},{2937,1004},{2688,865},{3081,1031},{2802,990},{3060,1027},{2811,874},{1833,795},{2976,946},{2862,1034},{2757,993},{2886,798},{2646,988},{2697,1011},{2772,946},{2835,931},{3114,882},{2916,953},{2592,801},{3084,960},{2709,964},{2520,891},{1069,1114},{3114,990},{2688,857},{3344,0},{2673,833},{2730,811},{3252,973},{3078,949},{2523,865},{2574,942},{2412,955},{2733,868},{3093,980},{2943,1007},{2658,820},{2682,833},{3123,951},{2826,1084},{2937,1002},{2532,800},{2544,960},{3102,964},{2412,817},{3114,935},{2886,1016},{2877,801},{2952,1078},{2679,810},
{2817,869},{2754,796},{2589,900},{2784,1005},{2883,933},{2877,880},{3081,868},{2382,965},{2463,869},{2877,799},{2550,1008},{2712,1003},{3102,968},{2532,803},{2706,898},{2766,893},{2736,913},{2520,843},{2445,996},{3105,818},{3078,816},{2748,925},{3045,803},{2673,861},{2934,852},{3030,948},{2967,895},{2523,810},{2436,963},{2922,1020},{2841,846},{2748,928},{2553,999},{2865,1032},{2862,802},{2655,1033},{2745,940},{2766,917},{2742,800},{2703,871},{2601,916},{2622,1002},{2886,806},{2745,935},{2751,1017},{2721,827},{3078,939},{2715,980},{2523,1029},{2862,856},{2733,847},{2658,881},{3234,942},{3129,999},{3000,895},{2973,807},{2751,835},{2622,865},{2652,944},{3114,921},{2637,1010},{2742,913},{2607,898},{2571,941},{2697,876},{2952,920},{2793,997},{2883,885},{2646,831},{3243,1004},{3291,1006},{2664,818},{2727,929},{2625,1024},{2499,1037},{3243,888},{2904,1027},{3045,797},{3078,896},{2745,1078},{3009,973},{2814,924},{2766,999},{2898,878},{3153,807},{3153,998},{2577,936},{2949,865},{2637,802},{3039,999},{2718,813},{3291,793},{2526,897},{2724,1019},{3114,925},{2715,913},{2409,825},{3006,965},{2898,956},{3114,943},{2733,852},{2811,872},{3078,1018},{2973,1078},{2814,852},{2643,870},{2667,794},{2553,976},{1833,848},{2772,973},{2733,822},{2445,972},{2778,798},{2811,901},{2478,972},{2946,1014},{2973,967},{2526,863},{2562,1021},{2598,811},{2835,837},{2802,899},{2454,834},{2799,1001},{2688,799},{2847,865},{3105,1024},{2472,1022},{2814,936},{2922,1081},{2712,883},{2742,998},{2958,850},{2934,832},{2751,1006},{3291,920},{2856,1010},{2793,929},{2991,914},{2442,810},{2718,1030},{2886,1018},{2967,838},{2445,929},{2577,830},{3075,887},{3069,988},{2616,994},{2880,826},{2748,931},{2736,1032},{3009,838},{3048,1010},{2712,900},{3123,901},{2724,875},{2691,950},{3234,986},{2751,961},{2973,1038},{2589,973},{2757,964},{2817,960},{2712,931},{3090,1034},{2937,873},{2733,879},{2985,970},{2877,888},{2934,1023},{2925,865},{2934,822},{3102,802},{2454,955},{2448,848},{2694,998},{3027,1012},{2487,940},{2847,989},{2643,803},{2985,905},{2910,948},{2691,895},{3252,817},{2856,958},{2676,804},{2469,1032},{3024,988},{2436,1021},{3243,914},{3078,925},{2526,983},{2448,801},{2664,830},{2955,953},{3345,360},{2448,1037},{2439,1032},{3350,0},{2841,902},{2700,952},{2946,1017},{2955,797},{2691,958},{2958,895},{2901,867},{2598,796},{2814,863},{2931,1007},{2553,1062},{2442,917},{2481,878},{2907,961},{2745,898},{2541,1022},{2547,1006},{2619,832},{2379,827},{3078,884},{2385,925},{2356,1118},{2880,965},{3345,787},{2760,1031},{2853,1018},{3063,855},{2469,1005},{2862,841},{2697,883},{2568,1008},{2823,806},{3105,855},{3358,28},{3108,959},{3114,949},{2727,794},{2733,846},{2421,923},{2817,836},{2676,976},{2673,973},{2898,999},{2862,964},{2871,998},{3078,810},{2526,992},{2856,955},{2889,1017},{3123,862},{2607,1008},{2796,962},{2814,834},{2553,889},{2823,822},{3063,884},{2589,797},{2484,1020},{2664,950},{2454,877},{3360,28},{2949,1008},{2811,968},{3102,880},{3099,990},{2955,884},{2547,1010},{2553,978},{2643,798},{2853,935},{112,1121},{3108,915},{2631,876},{2544,944},{2511,918},{2673,822},{2724,871},{2706,894},{2382,862},{2598,864},{2718,870},{3108,918},{2973,923},{3096,956},{2589,798},{3153,966},{2577,998},{2973,992},{2718,979},{2937,923},{2448,978},{2478,852},{2568,827},{2520,992},{3063,869},{2850,793},{2487,1018},{2589,809},{2442,801},{3291,984},{2721,1010},{2853,927},{2814,1007},{2889,1024},{2619,800},{2706,886},{2661,920},{2901,826},{2622,910},{2430,942},{2601,945},{3000,799},{2976,975},{3120,1025},{2415,965},{3368,0},{2703,883},{2886,883},{2904,1004},{2913,1027},{2556,846},{2949,1002},{3275,0},{3263,0},{3272,0},{3009,861},{3291,993},{3114,1078},{2748,912},{2490,869},{3153,872},{3039,1012},{3377,0},{2415,820},{2448,1078},{3108,1010},{3287,0},{3009,924},{2538,923},{2610,853},{2406,1062},{2385,973},{2784,1021},{2484,845},{2613,970},{2796,944},{3129,813},{2400,820},{2862,903},{3308,0},{2790,990},{2664,908},{2685,880},{2934,870},{3078,1012},{3291,903},{2532,942},{2643,1018},{2382,988},
{2805,953},{2925,1010},{3081,923},{3120,845},{2547,981},{2853,884},{3081,871},{2664,982},{3108,824},{2967,976},{2961,937},{3120,905},{2718,841},{2811,799},{2574,946},{3386,0},{3389,0},{2811,992},{2400,925},{2736,1031},{2469,876},{2715,1024},{3045,882},{2958,955},{3084,958},{2553,898},{2469,975},{3129,903},{2679,918},{3352,1116},{2841,999},{3120,1010},{232,1118},{2934,810},{3392,0},{2925,855},{2448,831},{2922,871},{2538,1001},{1081,1118},{3395,0},{2724,966},{2997,1037},{3398,0},{3045,853},{2802,958},{2793,1007},{3408,828},{3417,1140},{3411,856},{3414,846},{3423,839},{3402,1133},{3405,840},{3426,848},{3453,953},{3429,872},{3441,964},{3450,1149},{3462,1169},{3489,920},{3456,1148},{3459,873},{3480,1166},{3486,893},{3492,1165},{3468,1155},{3483,937},{3432,1146},{3477,832},{3435,888},{3474,915},{3522,1215},{3759,1252},{3714,1233},{3591,856},{3576,1225},{3525,879},{3594,794},{3696,1254},{3597,806},{3588,990},{3705,843},{3669,1221},{3657,798},{3582,900},{3585,970},{3684,981},{3747,908},{3678,1009},{3621,1208},{3765,1257},{3732,892},{3615,814},{3729,800},{3738,804},{3708,1222},{3528,848},{3636,978},{3660,1239},{3687,849},{3603,1019},{3741,867},{3711,1230},{3750,1003},{3612,924},{3609,1202},{3519,957},{3600,897},{3558,840},{3540,946},{3744,1227},{3561,1017},{3549,1008},{3672,1004},{3546,1179},{3654,1014},{3543,984},{3618,1172},{3510,1171},{3531,1005},{3564,1184},{3702,824},{3555,2273},{3534,973},{3651,860},{3627,1017},{3579,1160},{3753,1190},{3630,1211},{3723,1245},{3648,1214},{3921,846},{3846,1284},{3849,980},{3807,1037},{3507,965},{3834,951},{3900,1176},{3843,1279},{3927,1027},{3981,1326},{3840,2333},{3942,1027},{3888,2343},{3894,962},{3798,914},{3966,1024},{3954,1036},{3951,1025},{3819,872},{3828,1277},{3930,1025},{3891,1270},{3804,903},{3960,1319},{3822,1275},{3801,835},{3399,1295},{3795,856},{3936,1037},{3777,1020},{3789,948},{3786,1968},{3864,1285},{3858,917},{3945,1032},{3867,1290},{3939,970},{3537,1323},{3903,1020},{3897,893},{3915,954},{3948,998},{3876,863},{3879,1012},{3882,840},{3993,1332},{4032,926},{4062,1335},{4008,1338},{4041,815},{4023,980},{3990,851},{3987,847},{4035,987},{4047,1348},{4056,797},{4029,1006},{4098,1365},{4091,0},{924,1361},{4101,1368},{4077,1034},{4074,1360},{3423,885},{4119,1250},{4065,825},{4107,1372},{4113,1011},{4125,1376},{4110,1374},{2202,1383},{3768,949},{4132,209},{630,1379},{4182,1393},{4167,1390},{4148,0},{4153,216},{4147,214},{4158,852},{4164,866},{4155,1051},{4143,1027},{4161,800},{4185,799},{4173,1006},{4257,1422},{4224,1410},{4260,1418},{4239,964},{4220,0},{4216,220},{4251,990},{4245,967},{4209,867},{4248,1414},{615,1404},{4203,1402},{4199,0},{4200,1398},{4227,1168},{4191,796},{4236,906},{4233,849},{4190,0},{1260,1431},{4281,916},{4284,794},{4319,0},{4332,406},{4278,1006},{4314,954},{1222,1383},{4291,233},{3207,1442},{4276,225},{4274,0},{2220,1433},{4341,1446},{4361,0},{4365,397},{4277,0},{4371,872},{3741,894},{3516,1133},{4370,0},{4133,0},{4292,0},{4347,1024},{4374,185},{4356,975},{4353,398},{4217,0},{4352,0},{4154,0},{606,1471},{672,1460},{666,1467},{4383,1068},{4395,873},{4412,0},{4389,839},{4377,922},{4386,989},{522,1469},{603,1468},{4421,0},{4434,1005},{714,1479},{4446,878},{4431,948},{4443,878},{4442,0},{4454,0},{4425,948},{4453,753},{4463,0},{1284,1491},{4458,980},{4471,243},{4467,857},{4479,1025},{4472,0},{3507,881},{4485,876},{4488,1017},{4491,1062},{4518,1505},{4494,1504},{4511,0},{4542,1513},{4545,1512},{4526,0},{4521,1012},{4655,0},{4527,1510},{4533,1024},{4685,0},{4551,1030},{4548,913},{4484,0},{4338,1172},{4557,826},{4565,0},{726,1525},{4574,0},{4569,1522},{4338,1152},{4560,837},{4602,891},{4626,956},{4611,874},{4629,1547},{4608,1538},{4605,1231},{4596,966},{4599,877},{4464,969},{4644,831},{4620,915},{4617,927},{4593,915},{3645,854},{4635,796},{4638,867},{4632,1031},{4581,1529},{4584,1526},{3576,868},{4647,869},{4389,1557},{4674,1100},{4704,819},{4164,854},{4743,998},{4755,1586},{4740,905},{4752,827},{4746,1583},{4692,1563},{4737,852},{4110,1566},{4731,1572},{4728,937},
{4725,1032},{4713,793},{3843,1574},{4686,814},{3792,1567},{4719,937},{4736,0},{4785,835},{4839,1030},{4830,1547},{1338,1607},{4833,967},{4800,1599},{4773,1592},{4782,903},{4824,1588},{4818,898},{4770,871},{4827,820},{4788,837},{4815,960},{4812,932},{4803,986},{4809,940},{4791,1022},{4806,939},{4005,1023},{4863,971},{4902,854},{4842,1000},{4872,852},{4875,1012},{4893,966},{4845,1620},{4884,875},{4878,1026},{4857,941},{4890,823},{4698,1557},{4878,933},{4866,1040},{4899,1030},{1344,1623},{4854,878},{4881,847},{4887,981},{3876,800},{4941,1648},{4953,912},{4956,1653},{4905,800},{4926,1005},{4935,1646},{4920,1654},{4032,864},{4950,862},{4911,1029},{3570,883},{4917,834},{4923,880},{5007,997},{4992,974},{3954,820},{4986,1661},{4179,926},{4701,1258},{5040,1007},{4971,1658},{4998,1006},{5031,1392},{5004,1014},{4989,1667},{3453,611},{5010,963},{5034,1041},{5028,1675},{5019,889},{5022,1020},{5052,837},{5058,801},{5055,1062},{5118,1708},{5049,1693},{5100,1701},{5097,1702},{5091,869},{5070,1548},{4341,1374},{3567,916},{3573,902},{5088,1694},{5085,802},{3399,1231},{5115,873},{1350,1689},{5121,919},{5076,793},{5112,1152},{5132,0},{5127,964},{5061,913},{3645,944},{5151,1716},{5172,815},{5175,881},{5157,1720},{5163,964},{5145,966},{4161,1011},{3525,953},{4386,1199},{5136,1711},{5142,906},{5184,1729},{5178,916},{5196,935},{5235,803},{5232,1523},{5259,872},{5241,906},{5229,1748},{5238,896},{3522,1566},{5208,1735},{5217,956},{5193,1733},{4386,1041},{5226,798},{5250,845},{5256,1021},{5247,932},{5253,1032},{5214,1737},{5190,1034},{5202,900},{5223,1740},{4227,996},{5301,816},{5298,1765},{5304,888},{5271,1008},{4431,879},{5286,873},{5112,1488},{5283,834},{5268,1758},{5277,1010},{5322,1014},{4668,949},{4557,1193},{3972,900},{5316,994},{5331,1776},{5325,807},{5109,1435},{5334,1780},{4602,1175},{5391,876},{4836,938},{5370,957},{5376,1793},{3894,803},{3528,990},{3954,972},{5364,875},{5361,1035},{5343,968},{5400,903},{5355,826},{5352,871},{5349,838},{5367,1791},{5385,982},{5394,1799},{3507,960},{5448,849},{5451,988},{5406,1312},{4008,844},{5442,1608},{5430,1002},{5436,956},{5427,842},{5403,1261},{5421,1808},{5409,913},{3900,1295},{5457,958},{5433,823},{5034,820},{5463,887},{5532,893},{5514,1840},{5556,1846},{5505,1849},{5508,907},{5526,971},{5523,905},{5499,944},{5535,1847},{5544,872},{5484,890},{5487,957},{4056,925},{2346,1834},{3792,910},{5529,837},{5496,810},{5517,980},{4041,838},{5511,830},{5490,911},{5475,1032},{5559,946},{5610,956},{5571,1858},{4341,1199},{4878,805},{5583,1364},{5607,877},{5616,1871},{5628,1862},{5619,1859},{5565,1012},{5604,888},{5562,1002},{5595,1863},{5631,820},{5598,1867},{4143,971},{5673,991},{5640,892},{5718,1883},{5637,890},{5679,898},{5727,968},{5670,912},{5694,819},{5712,942},{5655,1881},{5676,1882},{5652,912},{4038,1304},{5691,1600},{5697,982},{5724,862},{5682,838},{5664,912},{5688,920},{5634,977},{5730,911},{5685,1021},{5739,845},{3516,895},{5766,963},{5778,1030},{5775,1927},{5808,1937},{5805,1934},{5769,1924},{5763,1920},{5340,1928},{5733,1495},{5745,1014},{5412,1378},{4119,1354},{5736,994},{5748,871},{5751,807},{5793,1930},{5844,1945},{5853,897},{5847,1013},{5814,898},{5823,999},{5820,923},{5838,1944},{5817,1037},{5829,833},{804,1950},{4554,929},{5880,1959},{4338,1324},{3480,926},{3618,1352},{4062,1247},{3873,809},{5871,819},{5862,1956},{5895,871},{5910,1971},{5883,1963},{5922,835},{5904,875},{5898,1967},{3618,815},{5937,891},{4599,902},{5928,1006},{5940,1040},{5931,1975},{5967,1017},{5943,1277},{5949,905},{5955,1987},{5964,1990},{5979,798},{5985,860},{6015,2003},{6012,903},{6006,1005},{6003,858},{5997,1029},{6018,2008},{5988,875},{5994,1024},{4113,1001},{6039,873},{6030,2011},{6036,875},{3936,843},{6048,2015},{6057,994},{4113,831},{6054,858},{6051,891},{3744,1022},{6060,887},{6075,2024},{6063,1036},{6090,987},{6093,878},{6069,903},{6084,2022},{6111,2036},{6102,2033},{6096,2035},{5475,841},{6126,2041},{6117,2040},{3873,794},{6141,941},{6138,2045},{4695,995},{6165,2054},{6168,2057},{6156,2053},{3582,824},{6153,1017},
{6150,2048},{6174,970},{6186,2063},{6201,2068},{6192,1005},{6195,2066},{6177,980},{5013,1338},{4416,825},{6213,2072},{6219,903},{6225,994},{6234,2079},{6243,2076},{6252,2083},{6246,1005},{6255,957},{6258,2087},{6264,2090},{6267,987},{4182,1346},{6276,2093},{6273,2095},{6282,916},{6300,955},{6297,2097},{6306,992},{4416,1015},{4179,958},{6309,2104},{6318,813},{6336,1006},{6342,2115},{6333,1029},{6321,944},{6324,852},{6327,905},{3423,869},{4182,1033},{4425,994},{4182,1952},{6354,943},{6357,2120},{6372,2125},{3906,1151},{6381,905},{6387,2128},{6378,869},{6405,2136},{6399,1097},{6402,873},{6393,2130},{5412,935},{6411,1037},{6414,967},{5475,803},{6420,2139},{6423,2142},{3468,837},{6438,936},{6435,1025},{6462,882},{6444,1031},{6447,2150},{6459,2152},{6453,811},{6468,2155},{6474,833},{6480,1246},{3780,995},{6489,2161},{6492,982},{6513,795},{6507,990},{6504,954},{3852,998},{6498,994},{6495,2167},{6512,0},{4557,1250},{4977,809},{4602,1302},{6528,1020},{6522,2175},{6537,864},{6534,2183},{6543,887},{6555,2186},{4710,838},{6561,1081},{6582,981},{6573,2192},{4668,1952},{6564,979},{6570,956},{6615,2204},{6593,0},{6600,2201},{6633,1097},{6624,2212},{6384,2210},{6627,954},{6453,1023},{5640,904},{6623,0},{4005,1084},{6642,804},{6645,611},{6639,931},{6660,2217},{6648,1030},{6657,2218},{5094,961},{5403,882},{6690,882},{6672,918},{5826,1905},{3912,1547},{6678,2233},{6669,887},{6684,939},{6675,2227},{6663,948},{6696,1030},{3504,1978},{6693,1034},{6666,1025},{6717,986},{6723,2240},{6704,0},{6714,2237},{6729,977},{6735,907},{5406,1519},{5646,2246},{6741,1008},{6734,0},{6744,911},{6753,2252},{6759,1020},{4119,1231},{5562,1022},{6765,940},{5031,1134},{6768,980},{6774,2259},{5109,1260},{6780,2262},{5994,901},{6789,796},{6795,807},{6801,2268},{6798,1879},{4305,1338},{3402,1248},{6816,917},{6813,941},{6810,887},{6837,2278},{6822,2273},{6828,2277},{6843,977},{6852,954},{6849,2282},{6870,2285},{6858,2287},{6876,2293},{6882,2295},{70,2244},{6909,2302},{6912,1006},{6900,970},{69,2244},{6921,2105},{6924,2309},{6933,2312},{6957,2316},{6954,912},{6951,984},{6945,2314},{6960,2322},{4554,902},{6978,2325},{6981,2328},{3618,1248},{6990,2329},{3516,1227},{7011,871},{6996,2334},{7005,872},{6999,986},{7020,2339},{7026,858},{7023,880},{2361,2244},{4970,0},{7029,1024},{7014,928},{7035,2344},{7041,2346},{7047,2207},{4830,1802},{7056,875},{7053,2350},{7059,828},{231,2244},{7068,2354},{7065,2357},{7077,2360},{7074,2361},{3531,802},{7088,0},{7089,893},{7097,0},{7098,832},{4251,1018},{7107,967},{6453,1877},{4668,1905},{4341,1619},{7125,1014},{7118,0},{5403,1176},{7131,2378},{7137,1019},{3345,2244},{3471,2383},{7140,1168},{7143,2382},{7161,927},{7158,1167},{7155,2384},{7203,2389},{7209,1242},{7197,1231},{3720,2388},{7182,892},{7173,2390},{7179,1191},{7206,2400},{3768,2397},{3639,2396},{7272,2422},{3813,2433},{7362,2456},{7341,2449},{7320,1264},{3780,2439},{7305,922},{7311,1021},{7263,885},{7284,2425},{7296,2420},{7224,1261},{7281,1037},{7242,2419},{7386,1258},{7233,825},{7230,2409},{7323,1311},{7380,1304},{7350,1306},{7254,2417},{7383,2406},{7239,945},{3894,2423},{7374,1321},{3975,2459},{7236,816},{7335,1324},{7326,2446},{7278,1287},{3873,2429},{7359,902},{7329,2448},{3816,2431},{7353,2407},{7290,942},{7332,2436},{7248,2415},{7302,1303},{7443,1340},{7416,950},{7503,2468},{7446,1227},{7467,2484},{7434,932},{7461,881},{7407,1339},{7440,2496},{3792,2491},{7479,944},{7506,2471},{7431,2486},{4050,2498},{7509,2505},{7512,1351},{7527,2507},{7524,1353},{7491,2500},{7518,2499},{7395,1333},{7419,1334},{7422,2488},{7401,1328},{7470,2483},{7551,1364},{7539,1357},{7533,2512},{7545,822},{7560,987},{7602,2533},{7574,0},{2196,2523},{7581,2526},{7590,973},{7587,2528},{4134,2505},{7596,851},{4176,2531},{7644,2544},{4221,2539},{7628,0},{7616,0},{7612,219},{642,2541},{7630,223},{7635,821},{7641,803},{7608,1023},{7647,2550},{7607,0},{7656,2551},{7662,2559},{7698,1437},{7685,0},{7695,996},{7674,2560},{7669,231},{7704,1441},{7613,0},{7692,2562},{4329,2569},{7671,1429},{7748,0},{7741,319},
{4362,2581},{7739,0},{7732,2574},{7725,2480},{7735,2570},{7716,1448},{7712,0},{7736,0},{7733,0},{7724,0},{7757,0},{7742,0},{675,2586},{7764,1464},{7790,0},{4398,2590},{7761,2595},{699,2592},{648,2599},{7631,0},{7749,1258},{660,2597},{7670,0},{7784,0},{627,2591},{7818,1476},{7821,1483},{7829,0},{7802,0},{7747,1453},{4422,2605},{7811,0},{7832,0},{7805,0},{7808,0},{7854,1082},{7841,0},{4476,2611},{4464,2395},{7845,1154},{7857,2614},{7874,0},{7875,2626},{4483,2622},{729,2627},{7884,1500},{7887,1501},{7890,1502},{7914,2641},{7917,2642},{7868,0},{7908,1518},{7920,2635},{7929,1428},{7953,2653},{7941,1530},{7949,0},{7956,930},{4623,2648},{8010,1560},{7962,986},{7977,2658},{7968,965},{7995,1553},{8001,1555},{4650,2673},{7992,1554},{7989,1028},{7965,2501},{7971,2668},{7983,1552},{7980,926},{8013,2672},{7986,866},{4710,2485},{8030,0},{8073,2682},{8037,808},{8064,1593},{8061,2681},{8055,1598},{8079,940},{8034,1589},{8058,2677},{4836,2389},{8082,1019},{8076,2690},{2326,2699},{8136,1392},{8115,1632},{8124,973},{8094,2707},{8100,2697},{8088,1616},{8145,1026},{8099,0},{8130,2709},{8133,2714},{8112,935},{8195,0},{8175,1078},{8196,936},{8187,941},{8160,2721},{8181,1261},{8184,901},{8172,1644},{8151,1638},{8202,2723},{8148,2718},{8229,951},{7725,805},{4119,2668},{8238,1672},{8208,2738},{8205,1655},{8232,1577},{8235,929},{8241,1671},{8217,1660},{8244,1679},{8289,822},{8298,1698},{5031,2533},{8253,1682},{8136,973},{8256,2440},{8259,967},{8277,2680},{8295,925},{8292,2762},{3325,2731},{8262,1691},{8280,2757},{8351,0},{8307,2767},{8334,1723},{8367,2510},{7713,1231},{8364,935},{8358,1727},{8313,2770},{8316,2773},{8337,2780},{8352,2781},{8331,919},{8409,1754},{8397,2798},{2338,2783},{4977,2587},{8379,2792},{8370,870},{8382,2795},{8391,2796},{8463,2822},{8412,962},{8439,943},{8445,1764},{8436,2814},{8418,2805},{8469,953},{8427,2808},{8433,1409},{8460,2818},{8451,2819},{8421,2824},{8505,1033},{8475,1769},{8478,1771},{7269,851},{8487,1773},{8484,861},{7701,1302},{8499,2834},{8496,1547},{8481,1677},{8523,2844},{8535,1796},{8529,925},{8526,2836},{8517,927},{8514,985},{8484,924},{8511,1003},{8583,1818},{8565,1813},{8541,866},{8562,2494},{8571,2858},{8550,1806},{8553,810},{8544,1805},{4644,2853},{8598,1831},{8502,985},{8634,921},{8589,1369},{8631,1850},{8628,1851},{8607,2870},{8616,1026},{8619,2874},{3582,2494},{8601,1823},{8592,1822},{8670,853},{8667,2854},{7437,877},{8664,1677},{8652,1346},{8694,1011},{8681,0},{8697,2900},{8703,966},{8661,2885},{8682,970},{8676,1864},{8643,1151},{8691,1874},{8649,2882},{8742,1903},{8718,884},{8727,2908},{8730,1141},{8754,1907},{8751,2827},{8739,1901},{8736,1902},{7878,930},{8733,2907},{8124,891},{8031,1001},{8247,2905},{8706,808},{8787,2933},{8820,2930},{8295,2921},{8757,2925},{8784,2939},{8811,804},{8769,2922},{8781,1918},{8838,2947},{8835,2944},{8853,2952},{8847,2948},{8859,1942},{8829,1323},{8862,1732},{8871,2956},{8826,824},{7968,929},{8906,0},{7140,1166},{8877,1177},{8889,1955},{8895,2964},{8883,803},{8901,1958},{8928,1355},{8925,1972},{8931,2970},{8907,1962},{8922,1969},{7869,839},{8937,2722},{8949,2981},{8955,1984},{8967,2988},{8958,1986},{8952,1982},{8961,1991},{8970,2482},{8988,2000},{8985,2007},{8022,2614},{8991,2998},{9012,878},{9003,2009},{9000,2999},{8730,1519},{9021,3008},{9027,2014},{9039,2027},{9036,889},{9030,3011},{9042,2029},{9045,1021},{9057,3020},{8595,2813},{9054,3016},{8298,899},{9072,3025},{9081,1786},{9084,1942},{9087,2043},{7335,896},{9090,2049},{9105,3037},{9108,832},{8037,2902},{4629,2567},{7509,996},{9099,1619},{9132,2070},{7845,926},{9126,2531},{9081,2424},{8049,2560},{9123,3043},{9138,2080},{9135,2074},{7185,1566},{8640,803},{9141,2655},{9150,3048},{9162,2881},{8196,2558},{9156,2682},{9159,798},{9165,3056},{9177,3060},{9183,2101},{5109,2495},{9186,1548},{8019,1033},{3399,3064},{7428,1344},{8763,1392},{8928,862},{9195,902},{9198,795},{9204,2110},{9207,2393},{8886,1570},{9225,927},{9009,1690},{9237,2121},{9228,976},{8352,1463},{8469,832},{8829,3042},{9162,1177},{9252,3083},{9258,929},
{9264,2143},{9276,2147},{4629,2644},{9282,1304},{9273,1802},{9291,3098},{9309,2159},{9306,3104},{7857,953},{9303,3100},{9318,1264},{9315,2162},{9258,1428},{8778,1295},{5034,2554},{8685,1462},{3351,3116},{9345,3114},{9339,3112},{9354,941},{9327,2172},{6519,3116},{9351,1877},{8772,2961},{9363,3120},{9357,2182},{9366,2184},{8568,1463},{7785,817},{9261,825},{8121,3028},{9378,2189},{9384,2198},{9390,808},{9393,2202},{8148,1417},{9399,1248},{7641,930},{9414,3137},{9420,830},{8364,1570},{9417,976},{7335,1151},{2362,3142},{7674,1168},{9429,994},{8499,3136},{8640,2962},{9444,947},{9435,3146},{9426,787},{9453,2229},{9468,3163},{9459,2236},{9465,3154},{9456,2235},{8670,3064},{9480,3164},{9501,32},{8109,1084},{6733,3142},{9495,3139},{9507,1347},{9510,2250},{9528,3177},{9426,3174},{9534,1952},{9507,973},{9546,1193},{9540,2257},{9171,799},{9444,2750},{9558,915},{8505,973},{9564,2269},{9567,3190},{8322,2636},{9573,909},{8667,799},{9579,2280},{9273,1732},{9588,3197},{9597,2704},{9603,3200},{7929,843},{9606,3203},{232,3142},{9615,3204},{9426,77},{9620,0},{4041,3127},{9632,0},{7227,808},{9633,3212},{3349,3174},{5070,2759},{8652,935},{9642,3216},{3894,2853},{9651,3215},{9348,2244},{2362,3174},{9657,2331},{9255,2635},{9663,3220},{8664,2729},{7008,3224},{9684,3225},{9678,3227},{9698,0},{9705,3234},{9690,3231},{9639,3165},{232,3174},{70,3142},{3388,3142},{9711,3236},{9597,1081},{9716,0},{9723,3240},{9426,39},{8937,2498},{8019,1287},{4836,2462},{7677,3064},{9522,95},{9731,0},{9735,3244},{9741,3246},{9744,902},{9546,1998},{9099,1174},{9750,2364},{9756,2368},{8196,2427},{9759,1038},{9762,2370},{7117,3142},{9768,1567},{7875,960},{9777,2207},{2356,3174},{9780,839},{9783,3262},{9791,0},{2377,3787},{3567,3264},{7185,3266},{9801,959},{9807,2404},{7176,3265},{9804,2398},{7389,3273},{7392,3279},{7314,3274},{9825,3271},{9810,2405},{9828,1033},{9816,2455},{9924,3299},{9861,1337},{9948,3306},{9945,2492},{9870,2475},{7398,3289},{4038,3313},{9855,3284},{9936,1035},{7437,3280},{4026,3296},{9900,3317},{7428,3294},{9885,1012},{9906,1038},{9954,1304},{9921,2496},{9909,2495},{9876,829},{9873,3288},{7455,3305},{9942,3298},{9858,2494},{9927,3310},{9846,906},{9843,1133},{9933,2470},{10005,3336},{10011,3343},{10023,3334},{9975,882},{9981,2514},{9978,2521},{9996,3333},{9990,3331},{9963,3322},{9972,1356},{10017,3340},{10041,846},{7575,3345},{10044,1148},{10071,935},{10065,1421},{7620,3343},{10059,2546},{10055,0},{10062,3352},{423,3350},{10068,1423},{1255,3360},{7665,3361},{10098,1436},{10101,1440},{2226,3369},{10091,0},{10093,232},{10095,1434},{10088,0},{657,3378},{10142,0},{10143,3377},{10110,2571},{10129,322},{10113,1445},{10122,3379},{10151,0},{10161,1472},{10154,0},{10094,0},{10173,3390},{7752,3382},{10130,0},{2253,3360},{10167,2593},{10176,3393},{10158,3385},{4198,3351},{10212,2608},{669,3403},{693,3406},{4455,3407},{10226,0},{10200,1078},{10205,0},{10217,0},{10199,0},{10087,321},{10190,0},{10208,0},{957,3395},{10191,2604},{10227,2612},{7861,3399},{10159,2579},{10150,2585},{10241,0},{10272,2623},{7863,3420},{10244,0},{10269,973},{10266,1189},{10265,0},{10259,0},{10278,1499},{10287,2632},{10286,0},{7932,3432},{7935,3434},{10308,3435},{10301,0},{10323,2669},{10317,2666},{9792,1556},{4678,3442},{10353,1569},{10365,976},{10359,3445},{10350,3449},{10344,2674},{10341,1393},{10356,817},{10332,1565},{10338,958},{8085,3459},{7980,3458},{10328,0},{10395,965},{10383,804},{10407,888},{10380,2703},{10401,1617},{10398,2706},{10392,2701},{10404,805},{10446,852},{10419,1174},{10422,1643},{10425,1649},{10443,3480},{3315,3479},{4836,3454},{10434,2730},{10416,1636},{10452,1665},{10470,1250},{10464,3489},{3324,3483},{10473,1610},{10479,1659},{10455,959},{10488,1688},{10485,832},{8274,3501},{10494,2691},{10500,2411},{8250,3348},{10509,2756},{10506,883},{10482,1681},{10533,1722},{10527,1718},{10521,3510},{10542,3319},{10548,2785},{10518,949},{10539,827},{10515,1713},{10536,2774},{10547,0},{10584,1755},{10566,3523},{10581,2738},{10572,2802},{10563,1038},{3333,3518},{10599,1084},{10605,2816},
{10644,3547},{10623,2830},{10626,1134},{10620,942},{10632,808},{10674,3553},{10653,1619},{10668,3555},{10650,1782},{10692,1815},{10698,864},{10695,2859},{10683,2846},{10686,820},{8586,3504},{10701,1820},{8625,3573},{10716,2868},{7224,3576},{10713,853},{10710,1824},{10743,3582},{10761,1287},{10419,1215},{10734,862},{10740,2879},{10758,1875},{10731,1166},{10752,2891},{10773,950},{10803,1388},{10797,996},{10800,2915},{10791,1177},{10782,1889},{10770,1028},{10776,1905},{1365,3595},{10830,926},{10827,1919},{10842,1933},{10833,2932},{10848,3605},{10812,2924},{10818,1703},{10821,2926},{10845,1932},{10851,1929},{3537,3627},{10344,3432},{10896,1953},{10902,1952},{10905,1964},{10923,1973},{10914,2972},{10938,1612},{8241,3302},{10932,2982},{10929,820},{9912,1166},{10371,909},{10959,2993},{10956,1172},{10962,2992},{10953,2991},{10968,965},{10977,3005},{10974,3002},{10983,3663},{10395,1378},{10992,2387},{10998,3529},{11001,3017},{11010,3022},{11013,3021},{11019,1191},{11028,1463},{11025,2044},{11034,1355},{11037,3032},{11043,3038},{10791,1786},{11040,1009},{11052,2061},{11049,2060},{10938,2752},{11067,2077},{11073,2397},{11091,835},{11085,3049},{11082,3051},{11109,2096},{11100,1003},{11127,2105},{11139,2113},{11142,2116},{11133,853},{11130,2674},{11136,2959},{10746,3312},{11145,3072},{11151,972},{11154,1804},{11157,2122},{9234,3720},{11166,2123},{11163,3080},{11172,875},{11175,3085},{11169,894},{9246,3666},{11181,1256},{11178,3087},{11187,3095},{11184,947},{11193,3096},{11196,3733},{10716,3490},{11205,1698},{11223,921},{9321,3739},{11220,3108},{10818,1192},{11226,1194},{11232,3743},{11252,0},{11237,0},{11253,3752},{11244,2180},{11262,3124},{11265,3125},{11271,2193},{9954,1151},{11268,2745},{11280,3132},{11274,2199},{11205,1192},{11286,2206},{11292,3141},{11322,1160},{11325,2807},{11304,962},{11313,3150},{11307,3770},{11298,946},{11319,3069},{9408,3768},{11331,1001},{11340,3161},{11339,0},{11355,885},{11349,3168},{9969,1295},{10902,3062},{10983,2810},{10581,3281},{11364,843},{11368,23},{11369,0},{11370,930},{11363,0},{11373,2249},{11385,3179},{11361,3174},{1081,3787},{11397,2261},{9552,3800},{11361,792},{11362,787},{11361,1118},{11421,851},{11418,3194},{11433,2288},{11439,2291},{11446,458},{11445,360},{11453,0},{10719,1378},{11322,1409},{10743,3052},{11455,2173},{10722,1015},{11454,1116},{11457,2301},{11361,39},{10587,953},{11470,459},{11475,853},{1377,3823},{11489,0},{11491,1115},{3900,3334},{11492,0},{11493,3223},{11496,862},{11502,1548},{9447,3305},{10500,1344},{7045,3843},{3402,3767},{11528,0},{9717,3846},{11549,0},{11550,3851},{11556,3853},{11564,0},{11361,3116},{11574,2470},{11580,3094},{11318,0},{11577,1033},{118,3787},{12828,1116},{118,4277},{11592,2371},{9894,2451},{11601,3868},{11609,0},{11637,2457},{9834,3880},{11631,1308},{11634,3277},{11628,1302},{11625,2452},{9879,3881},{11661,3283},{11652,3885},{11658,3301},{9912,3882},{11649,3297},{11724,3319},{11733,2519},{11712,3905},{11670,3909},{11697,3891},{11676,3910},{11703,2518},{9987,3898},{9984,3900},{11691,2516},{4086,3896},{11718,3907},{9960,3893},{7530,3894},{9969,3895},{11739,3912},{11742,3342},{11709,3902},{11754,1380},{10038,3924},{11751,3921},{11745,3916},{10047,3926},{11784,958},{10077,3931},{11796,2567},{11807,0},{11790,2553},{11808,1189},{11802,1435},{11787,3358},{7689,3933},{10119,3942},{11830,235},{963,3945},{11820,3372},{11825,0},{11813,0},{11812,3380},{11816,0},{11817,2576},{11851,2596},{11840,0},{11831,0},{11856,3951},{11852,0},{7767,3948},{11873,0},{11876,0},{11891,0},{696,3956},{11888,0},{11882,0},{11859,3394},{966,3959},{10233,3972},{7860,3973},{11923,3414},{10236,3976},{11903,0},{11900,0},{11933,0},{11906,0},{10251,3975},{10248,3969},{11910,2616},{10254,3971},{11895,3410},{11924,0},{11942,0},{11937,1300},{11945,0},{11964,3984},{10282,3985},{11961,2631},{11973,2633},{10165,3938},{11957,0},{11987,0},{11982,3437},{10371,3999},{11994,3443},{8025,4000},{12009,1587},{12024,2689},{12005,0},{12015,4004},{12006,4009},{12021,1435},{12018,1133},{4677,4013},{12035,0},
{12042,990},{12048,2726},{12054,3477},{12063,2733},{12060,1566},{12045,2719},{12072,2740},{12069,3487},{12075,2741},{12083,0},{12084,3486},{12090,2742},{12066,2737},{10414,4011},{12111,844},{8283,4026},{12104,0},{12105,2749},{12108,2755},{12099,3497},{12132,1435},{12123,2775},{12126,1148},{12114,2768},{4305,3882},{10002,4046},{7281,3915},{12135,2782},{8004,4051},{12162,2800},{12144,2791},{12159,2422},{12150,3529},{12171,3530},{12188,0},{12177,4060},{12189,2831},{12198,1786},{12204,2840},{12213,1003},{12210,2849},{12216,2860},{12228,3569},{10461,4002},{12234,798},{12240,3575},{12222,3568},{12225,1826},{12243,3579},{12249,2896},{12273,2903},{12267,1887},{12279,1154},{12276,3589},{12261,1886},{12282,2936},{12288,1914},{12308,0},{12300,2938},{3780,4099},{1369,4102},{12294,3612},{12285,2920},{12321,3621},{12324,3623},{12336,2958},{12309,899},{12333,2955},{12315,2950},{12057,1905},{12342,3637},{12339,4116},{12345,3639},{12027,3932},{12351,2978},{12357,2980},{4671,4046},{12360,3648},{12369,1992},{11976,3936},{12375,973},{12381,2824},{12393,3006},{7653,3891},{10881,4097},{12402,886},{12405,2026},{12408,2038},{12270,2880},{11937,1302},{12417,1447},{12420,3026},{12426,3031},{12432,2445},{12417,3034},{12441,3039},{12438,1084},{12444,3040},{12447,2736},{12117,3296},{10686,4153},{12471,2098},{11124,4153},{12474,3067},{12480,3070},{12477,3071},{9222,4162},{12483,3073},{12498,3077},{12504,2789},{12510,3081},{12525,3090},{12519,4172},{12522,2144},{12159,2766},{12528,3047},{12531,3093},{12540,2157},{12546,1570},{12543,3099},{12549,935},{12555,3111},{12552,3110},{9099,4149},{12564,2177},{12576,4193},{11643,3663},{3531,4031},{12573,4190},{12591,3759},{12588,3129},{12594,2203},{12600,3135},{12603,839},{3780,4202},{12609,3147},{12621,3159},{12633,2242},{12624,3158},{12630,4209},{12354,4212},{12645,1617},{12676,3174},{12672,3173},{9513,4219},{12669,39},{12678,3175},{12648,4202},{12681,3798},{12686,0},{11721,3337},{12689,0},{12690,3185},{12693,3801},{11718,1028},{12675,787},{12698,0},{12708,3808},{12704,0},{12700,95},{12719,0},{12722,0},{12676,23},{12737,0},{12732,4243},{12738,2305},{12726,2299},{12744,3207},{12743,0},{12700,3142},{12749,0},{12699,2207},{3354,4225},{12636,3213},{12132,3319},{12750,2313},{8052,3944},{12756,2321},{12766,3787},{12762,4190},{12761,0},{12767,0},{9666,4037},{12771,1115},{12768,2503},{12783,3841},{12786,820},{12790,4265},{11527,4229},{12789,3842},{12798,3242},{12801,2348},{12676,2173},{1374,4225},{12815,0},{12676,1115},{12816,3342},{12819,4275},{12504,1256},{12837,3865},{12840,3319},{12675,1115},{11670,3892},{12846,2376},{12676,4274},{11316,4225},{12676,3142},{9426,4225},{12858,4283},{12855,4284},{12861,4288},{12882,2521},{12879,2439},{12867,3888},{12870,3889},{12876,4291},{11757,4305},{12912,3344},{12924,3920},{12900,4295},{12909,4301},{12897,4298},{11766,4306},{12930,4296},{12927,3925},{12936,2522},{12891,4302},{11769,4307},{11781,4314},{12951,3368},{12954,1432},{12969,4322},{10125,4320},{7719,4321},{12975,4319},{12980,0},{12972,3944},{12983,0},{12986,0},{10164,4334},{12989,0},{12999,4331},{12996,3947},{12990,4335},{13023,3954},{705,4338},{13020,3398},{13049,0},{13037,0},{13046,0},{1281,4347},{13000,3941},{10245,4343},{13038,4344},{13052,0},{11941,4361},{13080,1179},{13079,0},{13009,4327},{13061,0},{13057,4350},{13055,0},{13085,0},{13089,3986},{7873,4359},{13076,0},{13106,0},{13107,3431},{13101,3430},{12849,3275},{13115,0},{10281,4372},{10320,4373},{8049,4376},{13131,4010},{13125,2684},{13137,3463},{13146,4381},{13134,2702},{13149,2713},{10413,4386},{13157,0},{12957,3313},{13167,3345},{13170,3492},{13164,1227},{13182,4032},{13179,1703},{13194,1619},{13185,3381},{13202,0},{3462,4406},{13203,816},{8361,4403},{13215,1258},{13233,4412},{13221,1703},{13230,3519},{13224,4047},{13254,2810},{13245,2694},{13137,3536},{13248,3266},{5337,4421},{13266,3546},{13272,2852},{3681,4425},{13278,1827},{13293,2886},{13299,2880},{13296,4044},{13290,2895},{13287,4434},{13164,4085},{13308,3602},{13305,3598},{13323,2935},{13311,4051},
{13347,3625},{5841,4447},{2352,4444},{13329,2941},{13338,1447},{12855,2405},{13353,2960},{8886,4455},{13359,2966},{13368,3599},{13326,3577},{12354,4393},{12855,1978},{13389,3536},{13398,2937},{13395,3655},{13404,4130},{13185,4433},{13218,1323},{13350,2868},{13425,4137},{13422,3023},{13428,1394},{13443,3686},{11061,4480},{13356,1324},{13449,2069},{13446,4099},{13455,3690},{13458,3698},{13446,2395},{13287,1227},{11103,4459},{13461,1336},{13464,3063},{13467,2117},{12492,4492},{13479,4165},{12432,4491},{13488,1671},{13509,3730},{13506,4179},{13194,1192},{13518,3738},{13515,3737},{13527,3749},{13524,3747},{13533,3123},{5631,4425},{13545,2195},{13539,4514},{13554,3763},{13512,3727},{13560,3144},{13563,1258},{13572,3166},{13569,3781},{13575,1704},{13578,3786},{13581,2718},{13584,3172},{13588,95},{13598,0},{13589,0},{13605,2395},{13615,3787},{13491,1370},{13167,2683},{13623,799},{13500,3473},{13628,0},{13639,1122},{13640,0},{13632,3676},{12723,4548},{13648,95},{13656,3208},{13659,3209},{6918,4555},{13647,95},{13669,1127},{13670,0},{11409,4512},{13676,0},{13679,0},{13680,3824},{13689,3827},{13692,3218},{13086,2401},{13005,1295},{13080,2515},{13696,4566},{13697,0},{11361,4568},{11505,4569},{13712,0},{13620,3626},{9687,4571},{13215,1227},{13724,0},{13723,3142},{13730,0},{13726,3243},{12795,4538},{13736,0},{13649,0},{13725,3855},{6586,4515},{13747,3251},{13742,0},{13743,4190},{13752,3862},{13755,1392},{13746,2365},{11599,4588},{7122,4437},{9771,4427},{13761,3286},{13764,3866},{11611,4590},{13772,0},{13775,0},{13778,0},{13780,3174},{9522,4593},{13784,0},{13588,3787},{13791,3338},{13788,4595},{13803,4600},{13797,4598},{12948,4610},{13821,4608},{13818,4284},{13842,4611},{13815,4313},{13812,4603},{12945,4609},{13848,4617},{7794,4622},{13862,0},{13854,4621},{13857,3949},{13011,4627},{13889,0},{11865,4625},{13880,0},{13886,0},{13017,4630},{13008,4624},{13901,0},{13893,3978},{13912,4353},{11866,4625},{13898,0},{13917,3981},{13913,0},{13065,4635},{13068,4636},{13062,4634},{13916,0},{13919,0},{13922,0},{13056,4641},{10275,4644},{13943,0},{13092,4649},{13937,0},{11970,4648},{13920,4638},{13952,0},{13955,0},{13965,3925},{13962,3992},{13976,0},{12004,4659},{13979,0},{13983,3470},{13980,3462},{13986,4384},{13989,2722},{13995,4019},{14003,0},{13176,4604},{13197,4671},{14016,4670},{14007,4031},{14022,4039},{8328,4676},{13206,4666},{14019,3508},{14025,3462},{13176,4655},{14037,2801},{14034,4413},{14042,0},{14046,4061},{14055,4607},{13257,4683},{14064,3549},{10597,4680},{14058,1770},{14061,3539},{14067,3377},{5383,4690},{14073,4423},{13848,4612},{14072,0},{14076,2871},{14079,1786},{14082,3588},{12264,4699},{14085,2558},{14094,1900},{14088,4086},{14091,3593},{14106,1374},{14109,3619},{14112,3620},{14115,2558},{14124,3626},{14123,0},{14130,3886},{14136,2973},{14139,3642},{14145,3649},{14142,4121},{14151,2917},{14157,4467},{14163,3662},{14160,1619},{13413,4723},{14178,4137},{14175,4724},{14181,3677},{14052,3560},{14187,4728},{14193,3688},{11076,4732},{14190,4150},{14205,3702},{14208,3057},{12180,4726},{14220,3716},{14223,4167},{13962,1435},{13809,3301},{14232,2132},{13995,2732},{14238,3734},{14244,4420},{13365,4705},{14259,3127},{14256,4194},{14264,0},{14268,3491},{14271,3776},{14274,3778},{14277,4206},{14286,3604},{14295,958},{14299,3794},{14103,3034},{14300,0},{14304,95},{13890,2565},{14312,0},{14106,933},{14013,3326},{14319,2275},{14325,4545},{14331,2289},{14283,3652},{14289,1374},{14256,4656},{13851,1154},{14244,4434},{14339,0},{12736,4779},{14341,1118},{14351,0},{14340,787},{14354,0},{14358,791},{10542,4695},{14367,4788},{14382,4795},{14390,0},{13698,4797},{14397,3836},{14396,0},{14406,3839},{11514,4800},{14409,4264},{14417,0},{9426,4804},{14422,4578},{14423,0},{13738,4810},{10542,4756},{14426,0},{14435,0},{14438,0},{14440,4815},{14451,3255},{14441,0},{14448,3293},{14456,0},{14466,4589},{9774,4820},{14471,0},{14474,0},{11610,4825},{14481,4214},{14489,0},{14496,4311},{14499,4602},{13836,4834},{13839,4835},{14520,4841},{13845,4839},{14508,4842},
{14511,4838},{14529,4623},{14541,3961},{11892,4845},{14534,0},{13026,4851},{14564,0},{7852,4848},{14547,4852},{14559,879},{14552,0},{14532,3983},{14546,0},{14568,4362},{11947,4857},{14575,4358},{11946,4857},{13942,4864},{14594,0},{14582,0},{13098,4866},{14588,0},{13936,4862},{14595,4867},{14583,4646},{14591,0},{14609,0},{14615,0},{14574,4652},{14606,0},{14621,0},{10023,4834},{14631,4656},{14634,2646},{13140,4881},{14652,4666},{13992,4882},{14649,4017},{14655,4387},{13173,4886},{13188,4887},{14664,3504},{14673,4043},{14670,4040},{14688,4055},{14691,4681},{14682,4884},{14685,3525},{14679,4409},{14676,4052},{14697,3531},{10596,4900},{14709,4064},{14703,3538},{14718,3552},{14724,3557},{14712,4069},{14721,3554},{14730,1804},{14729,0},{5382,4912},{14742,4084},{14739,3583},{14745,3450},{14717,0},{14754,3608},{14748,4440},{14757,4101},{14751,3582},{14760,2934},{13362,4922},{14769,3630},{14778,3636},{14775,2971},{14781,3271},{14784,3647},{14646,902},{14787,4459},{14793,2994},{14799,3657},{10995,4934},{14805,4470},{14808,3668},{14811,4141},{14814,4478},{5112,4922},{14820,3685},{14823,3693},{14832,4151},{14829,4152},{14826,4839},{14838,4738},{14835,4156},{14847,4495},{14856,3089},{14241,4840},{13512,4954},{12561,4955},{14871,2196},{9402,4959},{14730,2990},{14880,3149},{11667,4835},{14883,4205},{14889,3782},{14892,4221},{14895,859},{14900,0},{14901,3796},{11382,4968},{14909,0},{14910,3951},{14916,2264},{14886,1557},{14919,3805},{14922,3198},{14925,95},{14930,0},{14568,1302},{13605,4842},{14937,3133},{13650,4982},{14953,3210},{14954,0},{14844,1370},{12705,4934},{14961,4557},{14960,0},{14967,4561},{14966,0},{12754,4990},{14972,0},{14826,4093},{14981,0},{14992,3844},{14993,0},{14862,2668},{14994,4573},{15002,0},{15006,4809},{12810,5005},{15010,4580},{15012,4834},{15021,2362},{15009,4814},{15026,0},{14445,5010},{7119,5012},{15033,2640},{15042,5013},{15053,0},{14485,5018},{15056,0},{14490,5019},{15060,5021},{15066,5023},{15081,5026},{15075,5024},{15083,0},{15084,4846},{10239,5031},{15092,0},{15108,1206},{14577,5037},{15104,0},{15107,0},{14565,5033},{15098,0},{15116,0},{7851,5039},{15080,0},{13095,5040},{15128,0},{15103,3421},{14590,5042},{15152,0},{15143,0},{14610,5045},{14616,5048},{15155,0},{15125,0},{15131,0},{15172,4653},{11979,5053},{14625,5056},{15167,0},{15177,5058},{15171,4653},{15180,3996},{13927,5032},{15185,0},{15186,4026},{15192,4029},{15195,3499},{15198,4397},{15203,0},{15204,4404},{10546,5067},{15210,3526},{15207,3520},{15228,3537},{15225,3534},{15219,1760},{15216,4058},{15222,5029},{15213,4898},{15231,3543},{15236,0},{15237,4065},{15240,933},{15249,3563},{10680,5081},{15246,4073},{9879,5084},{15243,4427},{15255,2865},{10389,5084},{15264,3596},{12270,5089},{15263,0},{13317,5090},{15282,4445},{15279,3622},{15276,3624},{15288,3618},{15285,4110},{15294,3640},{15306,3650},{15309,960},{15315,4020},{15318,3660},{15267,4685},{15324,4472},{15327,3672},{15330,4143},{15333,1260},{15336,1300},{11088,5114},{15348,4154},{15345,3699},{10872,5020},{15357,3705},{15354,3706},{15360,4399},{15060,1256},{15363,4500},{15372,4189},{15375,3761},{15318,4199},{15380,0},{15381,1880},{15252,3767},{15384,4204},{15387,3162},{15390,4213},{12648,5131},{15396,3792},{9543,5133},{15405,3183},{15410,0},{15108,1324},{13608,5137},{15414,3379},{15417,3187},{11997,5028},{15420,1488},{15342,4416},{15431,0},{15333,1374},{14931,5145},{14934,5146},{15446,0},{15448,4783},{15453,3660},{15450,3820},{15447,4985},{15456,3821},{14356,5153},{15461,0},{15465,4562},{15276,4544},{15473,0},{12753,5158},{15240,1557},{15360,3447},{14985,5160},{15485,0},{11532,5162},{12255,5131},{15333,4376},{15492,3848},{15363,3542},{14418,5165},{15500,0},{15505,5167},{15506,0},{15503,0},{15515,0},{15512,0},{12835,5172},{12834,5172},{15521,0},{14458,5174},{14463,5175},{15524,0},{11619,5177},{15536,0},{14484,5179},{14494,5180},{15542,0},{15545,0},{15554,0},{15551,0},{15548,0},{15082,5182},{15558,5029},{13071,5188},{15563,0},{15553,5026},{13926,5194},{15123,5192},{15573,3989},{2280,5185},{13929,5189},
{15572,0},{15581,0},{3270,5197},{15590,0},{2289,5197},{7902,5197},{2268,5185},{2280,5197},{15597,5052},{15585,5046},{15618,5208},{15591,2637},{15609,5202},{15614,0},{3273,5185},{3261,5197},{819,5185},{15601,4876},{2283,5185},{15605,0},{15617,0},{15105,5207},{1398,5185},{15635,0},{15133,5193},{15632,0},{13114,5210},{15148,5190},{2289,5185},{15600,4651},{7950,5197},{11991,5197},{1398,5197},{3270,5185},{15645,3438},{3261,5185},{3285,5185},{15644,0},{15639,4374},{3306,5197},{15650,0},{2307,5185},{3285,5197},{4683,5185},{4968,5197},{14004,5217},{15657,5218},{15663,3517},{15660,839},{3306,5185},{15669,4414},{12168,5222},{15678,4684},{15684,5229},{15690,3545},{13260,5232},{14715,5234},{15708,986},{357,5197},{15705,2856},{4968,5185},{14733,5240},{15681,4428},{15717,1435},{15714,5237},{15726,1856},{15723,3585},{15735,2931},{12291,5244},{15741,4448},{15744,4839},{15756,3633},{15678,4452},{15753,4450},{15747,5227},{15750,3631},{357,5185},{15762,4428},{15765,1994},{15771,4722},{15774,5227},{15777,3674},{13431,5260},{13437,5219},{15783,3682},{15792,5117},{15798,4009},{15795,804},{15801,3058},{15753,3924},{15804,4066},{15807,3610},{15804,5028},{10755,5220},{15810,2552},{14859,5254},{15813,4501},{15705,1543},{14868,5239},{15819,3753},{14250,5260},{12138,5244},{3645,5274},{11316,5276},{15831,3157},{15696,5274},{15837,3784},{9318,5269},{15843,4763},{15846,1978},{14106,5274},{13602,5274},{15852,3797},{15843,1704},{8214,5285},{13611,5287},{15866,0},{14311,5288},{14295,5274},{15867,4540},{13362,5249},{15849,1152},{15870,1174},{15798,4330},{15876,4772},{15711,4745},{15879,4774},{15687,3286},{15882,4775},{13296,5265},{14940,5295},{15891,4551},{15899,0},{15908,0},{15905,0},{15914,0},{14355,5305},{15918,3826},{15759,4915},{15929,0},{15938,0},{15484,5312},{15944,0},{15948,5163},{15945,3587},{15678,4750},{15951,3551},{15684,1370},{15004,5319},{15959,0},{15951,2862},{15018,5320},{15966,5323},{15829,4274},{11589,5269},{15983,0},{15990,4281},{15989,0},{14457,5331},{15870,4525},{15998,0},{13774,5332},{16004,0},{16007,0},{14493,5336},{16012,5182},{15555,5340},{16011,5340},{16017,5338},{16028,0},{15078,5338},{819,5337},{3261,5338},{2283,5338},{2271,5345},{2268,5338},{2283,5340},{16029,5344},{2286,5345},{16040,0},{16046,0},{2289,5338},{15594,5350},{16049,0},{15147,5351},{15132,5352},{1305,5337},{819,5340},{16043,0},{3273,5340},{16073,0},{16067,0},{16079,0},{499,5356},{16076,0},{3273,5338},{16061,0},{1305,5340},{2280,5338},{16106,0},{16118,0},{16083,5370},{3285,5338},{2307,5340},{2301,5345},{2307,5338},{16097,0},{424,5362},{16100,0},{16103,0},{16109,0},{16136,0},{16085,0},{16127,0},{3270,5338},{16121,0},{13971,5376},{15634,5368},{2268,5340},{1398,5340},{2289,5340},{2268,5337},{2280,5340},{2283,5337},{748,5381},{16151,0},{778,5382},{4683,5338},{4653,5345},{16139,0},{2307,5337},{16142,0},{2289,5337},{3270,5340},{14637,5388},{10362,5385},{16154,0},{16160,0},{16163,0},{16167,3456},{16172,0},{3273,5337},{2280,5337},{3261,5340},{1398,5338},{16181,0},{16178,0},{3306,5338},{1398,5337},{3285,5340},{16184,0},{16187,0},{16190,0},{13201,5396},{16191,4889},{4968,5338},{4683,5340},{16197,886},{16194,991},{3270,5337},{15675,5401},{16202,0},{3261,5337},{16208,0},{3285,5337},{16209,5231},{16212,5233},{16218,4067},{16223,0},{3306,5340},{4683,5337},{16235,0},{12237,5410},{16224,3574},{16245,4082},{16239,2452},{16242,1300},{16251,4700},{16248,2904},{357,5338},{3306,5337},{4968,5340},{16254,4104},{16257,4109},{16260,3628},{14772,5425},{16272,5423},{16263,5097},{4968,5337},{14154,5428},{16287,1610},{14160,5385},{357,5340},{16224,1533},{16293,5107},{357,5337},{16296,4310},{15786,5434},{16305,4708},{16308,4734},{14211,5437},{16314,1041},{14841,5440},{16323,5442},{16329,4948},{14850,5444},{16338,5272},{14235,5401},{10995,5398},{16347,4510},{16344,1305},{16350,4512},{16356,5451},{16287,1346},{16359,4099},{16364,0},{14886,5455},{14283,5457},{16374,4218},{16377,4220},{16380,2254},{16395,873},{16392,4769},{14913,5467},{14313,5471},{16410,3802},{11409,5435},{16419,5472},{15873,5474},
{16428,4492},{12718,5479},{16439,0},{16440,4981},{16443,5296},{16446,4554},{16455,5154},{12597,5457},{16203,4603},{16463,0},{16266,4194},{15930,5489},{16350,2765},{13701,5490},{15939,5491},{11541,5493},{16482,5495},{16488,3888},{16494,5260},{16499,0},{15003,5500},{16503,2426},{15964,5502},{16508,0},{16511,0},{16514,0},{14448,5432},{15984,5506},{16521,5176},{16529,0},{16365,5285},{14478,5511},{16547,0},{16550,0},{16556,0},{16553,0},{16557,5341},{16558,5341},{1305,5520},{15556,5521},{16561,5181},{16577,0},{16580,0},{16589,0},{16574,0},{16571,0},{16583,0},{16586,0},{16568,0},{16062,5531},{16622,0},{16598,0},{16599,4370},{15162,5530},{16560,5337},{16616,0},{16613,0},{16607,0},{14622,5539},{16610,0},{16089,5539},{16640,0},{15636,5543},{16634,0},{16649,0},{16646,0},{423,5558},{16658,0},{16650,5374},{16670,0},{16664,0},{16661,0},{16667,0},{16633,138},{16703,0},{15603,5563},{16709,0},{16697,0},{16712,0},{16745,0},{2268,5520},{16727,0},{16718,0},{16739,0},{16736,0},{424,5558},{16732,119},{16715,0},{16721,0},{16706,0},{16724,0},{16726,135},{16772,0},{14641,5585},{16754,0},{819,5520},{16751,0},{16758,2680},{16778,0},{16733,0},{16757,0},{2283,5520},{16787,0},{16784,0},{16781,0},{2307,5520},{16799,0},{16802,0},{16796,0},{3273,5520},{14031,5603},{16815,4049},{16827,880},{2289,5520},{1398,5520},{16823,0},{16824,1763},{16820,0},{2280,5520},{16832,0},{16833,4902},{16847,0},{16841,0},{16850,0},{3261,5520},{3270,5520},{16853,0},{16857,5086},{16865,0},{16862,0},{16872,1860},{16236,5623},{16878,2916},{16881,5243},{3285,5520},{16884,4438},{4683,5520},{16887,4701},{16898,0},{16895,0},{16899,3629},{16266,5635},{16914,4457},{16911,4458},{16908,5100},{3306,5520},{15759,5635},{16919,0},{4968,5520},{16926,5256},{16923,3003},{12399,5644},{16935,4473},{16299,5647},{357,5520},{16944,5113},{15789,5649},{16950,3704},{16956,3053},{16953,5439},{16962,4163},{16965,4743},{16968,5445},{16971,5447},{15366,5658},{15369,5659},{16980,5661},{16986,4958},{16989,4755},{16887,2560},{16992,3765},{16995,5278},{16998,4214},{16368,5667},{12651,5668},{17010,4531},{15849,5671},{17016,809},{17013,5133},{17019,5466},{17024,0},{16407,5672},{17025,5676},{17031,3192},{17034,3195},{17037,5141},{17040,5478},{13641,5682},{17049,5147},{17052,4782},{17057,0},{17060,0},{15913,5686},{17061,4787},{15468,5689},{17064,4479},{16956,2487},{17070,4793},{13473,5635},{17081,0},{17073,4991},{15477,5692},{14389,5693},{17084,0},{14416,5695},{17087,0},{17088,4577},{17091,5497},{17094,5318},{15507,5701},{17102,0},{17108,0},{15963,5703},{15972,5704},{16515,5706},{15988,5707},{17123,0},{17126,0},{17130,5510},{15045,5709},{17135,0},{17586,3804},{17139,5341},{17142,5715},{2286,5717},{17150,0},{2271,5719},{17162,0},{17156,0},{17178,5534},{17166,5721},{17172,5723},{2292,5717},{16080,5727},{2286,5719},{16623,5731},{17216,0},{16113,5737},{2301,5717},{16092,5739},{17198,0},{15628,5733},{17189,0},{17204,0},{17208,5735},{17226,5378},{17228,0},{2271,5717},{16683,5744},{17201,0},{17235,5560},{414,5743},{17246,0},{17247,5752},{17250,5566},{16132,5729},{17267,0},{17268,5580},{405,5761},{17292,5763},{17300,0},{17277,5758},{17310,5768},{17282,0},{17286,5767},{17327,0},{17315,0},{17331,4012},{17317,5732},{17321,0},{17261,0},{357,5779},{14640,5780},{2301,5719},{17345,0},{4653,5719},{17357,0},{16791,5782},{1305,5772},{17369,0},{16803,5788},{4653,5717},{17370,5224},{17373,4417},{17385,5612},{17388,5227},{17381,0},{819,5772},{17384,0},{17396,0},{17376,1567},{16848,5800},{2268,5772},{2283,5772},{17417,0},{17414,0},{17424,5809},{3273,5772},{16875,5810},{17433,3603},{2307,5772},{2280,5772},{17444,0},{2289,5772},{17439,5812},{17451,4921},{17450,0},{13326,5815},{17460,4685},{1398,5772},{17463,4322},{3270,5772},{3261,5772},{17472,4462},{17477,0},{17478,5104},{17372,0},{17466,4461},{17469,4122},{16852,5800},{12372,5792},{17402,0},{3285,5772},{4683,5772},{17400,5806},{17487,5830},{17486,0},{16290,5831},{3306,5772},{17496,4138},{16851,5800},{4968,5772},{17499,4939},{17505,4484},{17508,4733},{17513,0},{357,5772},{17517,4739},
{11121,5838},{17520,4494},{17523,4169},{17526,4499},{17529,3736},{17532,4749},{17535,4507},{17538,4195},{17544,4517},{17541,4516},{15825,5849},{17553,5280},{17558,0},{17559,4764},{17562,5669},{17565,3793},{16383,5856},{17574,5857},{17577,4539},{17585,0},{16425,5863},{17388,4235},{17595,3810},{15315,5815},{17598,4238},{17603,0},{17604,4781},{17611,5869},{14787,5820},{17607,5870},{17609,0},{16458,5871},{17619,4790},{17625,5307},{15472,5874},{17624,0},{17628,2324},{14976,5879},{17634,5311},{17640,4258},{17643,4259},{17460,5248},{14997,5885},{17660,0},{17661,4268},{17664,4269},{17667,3861},{17557,4222},{17678,0},{15979,5893},{17681,0},{17682,5009},{16524,5896},{14473,5899},{17699,0},{17694,3871},{16407,5864},{17706,5519},{17714,0},{17145,5905},{17724,5728},{17720,0},{17730,5542},{17733,5545},{17738,0},{17744,0},{17741,0},{17759,0},{17751,5375},{17748,5551},{17772,5557},{17765,0},{17753,0},{17761,5342},{17756,0},{16131,5922},{17778,5562},{17777,0},{15627,5929},{17783,0},{16746,5932},{17799,5576},{17760,5520},{17807,0},{17757,5769},{1305,5920},{17817,5591},{17829,5776},{17846,0},{17841,3476},{17316,5920},{17858,0},{17861,0},{17867,0},{17862,5784},{819,5920},{17876,0},{17868,5786},{2268,5920},{17885,0},{2307,5920},{17888,0},{2283,5920},{17891,0},{3273,5920},{10677,5970},{17903,0},{17895,5405},{2289,5920},{17915,0},{2280,5920},{17918,0},{17921,0},{17933,0},{1398,5920},{17942,0},{3261,5920},{17939,0},{3270,5920},{17934,3613},{17952,4106},{17945,0},{17951,0},{17955,5634},{17958,5819},{14127,5987},{3285,5920},{17964,5101},{17969,0},{4683,5920},{17975,0},{17970,4716},{17978,0},{17981,0},{17993,0},{17985,4932},{17996,0},{18000,1997},{18008,0},{3306,5920},{17410,6004},{18011,0},{18015,4469},{18021,3669},{4968,5920},{18026,0},{18029,0},{18036,4145},{18035,0},{18041,0},{357,5920},{18042,4155},{18040,5837},{18053,0},{16959,6018},{18057,4742},{18060,4171},{18065,0},{18068,0},{18069,4186},{18072,3746},{18077,0},{18081,4519},{18080,0},{18084,5850},{18087,4760},{12666,6030},{18093,4530},{18096,4533},{18099,1446},{18104,0},{1384,258},{18567,6017},{1384,6190},{18107,0},{18099,5864},{18114,5142},{18117,3809},{18123,4778},{18126,3816},{18134,0},{18143,0},{15900,6046},{18149,0},{18150,3828},{15924,6053},{18153,4791},{17631,6054},{18167,0},{18174,3837},{18173,0},{18168,4260},{18177,4801},{18182,0},{18186,3856},{18189,3857},{18192,4583},{18197,0},{18203,0},{18195,5504},{15978,6068},{18207,4586},{18212,0},{15048,6072},{18219,3872},{18224,0},{18227,0},{18228,5725},{16549,6077},{18237,5547},{18234,5730},{556,6081},{18249,5559},{18246,5741},{499,6080},{17220,6084},{18275,0},{18276,5751},{16692,6090},{18261,5747},{18260,0},{16704,6085},{18281,0},{18290,0},{18284,0},{18291,5757},{748,6099},{18296,0},{18302,0},{18308,0},{17806,6098},{18311,0},{778,6104},{15189,6107},{18326,0},{18330,5596},{18333,5602},{18341,0},{17877,6114},{18350,0},{18351,5797},{18357,5614},{18362,0},{18356,0},{18368,0},{16854,6123},{17410,6125},{18377,0},{18380,0},{18386,0},{18381,5806},{1305,6121},{18398,0},{18404,0},{18406,6137},{18410,0},{819,6121},{18413,0},{18416,0},{18423,4711},{18429,5426},{2268,6121},{18434,0},{2283,6121},{18435,4460},{18443,0},{18447,4464},{3273,6121},{18459,4128},{18454,6138},{2307,6121},{18456,6154},{2280,6121},{16920,6155},{18457,5998},{18473,0},{2289,6121},{1305,6151},{1398,6121},{3261,6121},{18476,0},{18482,0},{18488,0},{819,6151},{3270,6121},{3285,6121},{18485,0},{2283,6151},{4683,6121},{2280,6151},{1305,6164},{3273,6151},{2268,6151},{18497,0},{2307,6151},{18484,6013},{3306,6121},{3261,6151},{2283,6164},{819,6164},{18509,0},{2289,6151},{1398,6151},{4968,6121},{18501,6015},{3273,6164},{2280,6164},{3270,6151},{2268,6164},{2307,6164},{18516,4490},{18514,6169},{3285,6151},{4683,6151},{1305,6171},{18521,0},{2289,6164},{3261,6164},{1398,6164},{18321,1215},{18524,0},{3306,6151},{357,6121},{3270,6164},{2283,6171},{819,6171},{3285,6164},{4683,6164},{4968,6151},{2280,6171},{1305,6175},{3273,6171},{2268,6171},{18529,6021},{2307,6171},{18533,0},{3306,6164},{18534,4751},
{18528,6175},{2283,6175},{3261,6171},{819,6175},{1305,6176},{2289,6171},{1398,6171},{4968,6164},{18532,6025},{357,6151},{3306,6171},{2280,6175},{18544,6180},{2283,6176},{3273,6175},{819,6176},{3270,6171},{2268,6175},{18546,4522},{3285,6171},{2307,6175},{18542,0},{1384,258},{19134,6165},{1384,6379},{4683,6171},{2289,6175},{2268,6176},{2280,6176},{1305,6181},{18551,0},{3261,6175},{3273,6176},{1398,6175},{1384,258},{19170,6169},{1384,6391},{2307,6176},{18554,0},{18557,0},{819,6181},{357,6164},{18560,0},{3261,6176},{2289,6176},{3285,6175},{1398,6176},{3270,6175},{16386,6187},{18565,6183},{1305,6188},{3273,6181},{4968,6171},{2289,6181},{4683,6175},{18573,462},{3306,6176},{4968,6175},{2283,6181},{729,6171},{3270,6176},{3285,6176},{1398,6181},{4968,6176},{18565,6035},{2280,6181},{819,6188},{2307,6181},{1305,6192},{18564,6192},{3306,6175},{4683,6176},{2268,6181},{4683,6181},{357,6176},{2283,6188},{3261,6181},{17584,6193},{357,6175},{3273,6188},{18581,0},{819,6192},{2280,6188},{3270,6181},{2268,6188},{2283,6192},{16431,6195},{18588,4237},{2280,6192},{3270,6188},{3306,6181},{2268,6192},{2289,6192},{2289,6188},{3261,6188},{3261,6192},{1398,6188},{2307,6192},{3273,6192},{18584,0},{18593,0},{3270,6192},{3285,6188},{1398,6192},{4968,6181},{4683,6188},{3285,6192},{3285,6181},{2307,6188},{357,6181},{3306,6188},{4683,6192},{18595,5869},{18594,6048},{18600,5303},{3306,6192},{4968,6188},{4968,6192},{18606,5488},{18611,0},{18612,4792},{357,6192},{357,6188},{18615,3833},{18627,3840},{18621,4994},{18630,4572},{18638,0},{18636,6061},{18653,0},{18656,0},{18659,0},{18644,0},{17692,6219},{18665,0},{18668,0},{18666,5897},{18670,6222},{18670,6033},{17709,6224},{17727,6225},{2292,6226},{17745,6227},{17790,6231},{2271,6226},{2286,6226},{17784,6230},{17238,6229},{18701,0},{2301,6226},{17793,6232},{17802,6235},{18710,0},{18688,5746},{17262,6240},{18719,0},{18285,6238},{17811,6243},{17808,6242},{18303,6245},{17814,6244},{18744,6247},{17334,6249},{18697,5931},{18733,5938},{18751,5951},{18755,0},{17871,6253},{17880,6254},{17853,6250},{18780,5969},{18364,6251},{18771,5966},{18777,5234},{17892,6258},{18783,5968},{4653,6226},{18794,0},{18789,4077},{18390,6267},{17409,6265},{18387,6266},{18809,0},{18796,5979},{18399,6270},{18818,0},{18795,6135},{18405,6275},{18824,0},{18834,3645},{18833,0},{18839,0},{18826,6277},{18845,0},{18846,4930},{18849,5994},{1305,6276},{18793,6268},{18857,0},{18852,4129},{18866,0},{18869,0},{18860,0},{18863,0},{18872,0},{18453,6276},{18878,0},{18873,4132},{18477,6293},{819,6276},{18884,0},{18887,0},{18890,0},{2283,6276},{18893,0},{18898,6161},{3273,6276},{2268,6276},{2307,6276},{18905,0},{18908,0},{2280,6276},{18911,0},{18897,6304},{18917,0},{18920,0},{3261,6276},{2289,6276},{18932,0},{18926,0},{1398,6276},{18929,0},{18934,6009},{18923,0},{18938,0},{18912,6167},{18933,6164},{18944,0},{1305,6311},{18950,0},{18947,0},{3270,6276},{3285,6276},{18959,0},{18953,0},{18955,6165},{18962,0},{4683,6276},{18965,0},{18954,6311},{2283,6311},{1305,6318},{819,6311},{18968,0},{18971,0},{18974,0},{18980,0},{18977,0},{17512,6328},{18986,0},{18992,0},{18989,0},{18983,0},{3306,6276},{18995,0},{18513,6318},{3273,6311},{819,6318},{2280,6311},{2283,6318},{2268,6311},{18998,0},{2307,6311},{19004,0},{19007,0},{19000,6017},{18985,6174},{4968,6276},{19010,0},{19011,4497},{19019,0},{18999,6171},{3261,6311},{2268,6318},{1305,6333},{3273,6318},{2280,6318},{2289,6311},{19025,0},{19000,6021},{19031,0},{2307,6318},{1398,6311},{19028,0},{19034,0},{19040,0},{19037,0},{18999,6175},{3261,6318},{2283,6333},{819,6333},{2289,6318},{3270,6311},{19043,0},{19049,0},{1398,6318},{19046,0},{3285,6311},{19052,0},{4683,6311},{19055,0},{357,6276},{19058,0},{19064,0},{19070,0},{2280,6333},{19067,0},{3273,6333},{3270,6318},{2268,6333},{19073,0},{19085,0},{19082,0},{19076,0},{3285,6318},{2307,6333},{19079,0},{19088,0},{3306,6311},{4683,6318},{19091,0},{19059,6179},{4968,6318},{4683,6333},{3261,6333},{19100,0},{2289,6333},{19109,0},{19103,0},{19118,0},{1398,6333},{19121,0},{19115,0},{19112,0},
{19106,0},{18076,6374},{18543,6377},{3306,6318},{4968,6311},{19127,0},{19140,462},{19130,0},{19124,0},{19145,0},{2292,6368},{3270,6333},{819,6377},{1305,6377},{729,6311},{19159,6026},{3285,6333},{19163,0},{19166,0},{19157,0},{19154,0},{19148,0},{19151,0},{14301,6394},{19176,462},{19123,6185},{1305,6386},{19181,0},{19169,0},{19190,0},{3273,6377},{19158,6181},{2283,6377},{729,6318},{19199,0},{19208,0},{19205,0},{819,6386},{19211,0},{19212,5463},{19202,0},{3270,6377},{19217,0},{19220,0},{2268,6386},{3306,6333},{19238,0},{19235,0},{19241,0},{19226,0},{19232,0},{19223,0},{18564,6386},{19229,0},{2268,6377},{357,6333},{2307,6377},{2280,6377},{2307,6386},{3285,6377},{19247,0},{4683,6377},{19253,0},{19250,0},{2283,6386},{19244,0},{3261,6377},{19262,0},{19259,0},{19265,0},{19256,0},{3273,6386},{1398,6377},{4968,6333},{19280,0},{19283,0},{19271,0},{19268,0},{19274,0},{2289,6377},{19277,0},{3306,6377},{19286,0},{2367,6333},{19289,0},{2280,6386},{19298,0},{19292,0},{19295,0},{19307,0},{19313,0},{3261,6386},{18111,6436},{2289,6386},{19304,0},{4968,6377},{19322,0},{19319,0},{19326,3812},{19316,0},{3270,6386},{19325,0},{4683,6386},{19337,0},{19346,0},{19334,0},{3285,6386},{19343,0},{19329,3814},{19349,0},{19340,0},{19361,0},{19355,0},{19352,0},{19358,0},{19364,0},{19373,0},{3306,6386},{19382,0},{19385,0},{1398,6386},{19379,0},{19376,0},{19391,0},{19394,0},{357,6377},{19388,0},{4968,6386},{19397,0},{19400,0},{19403,0},{19406,0},{19410,3822},{19409,0},{19415,0},{19418,0},{357,6386},{19421,0},{19395,249},{19424,0},{19430,0},{19433,0},{19436,0},{18625,6479},{19445,0},{19440,4996},{19446,3845},{19439,0},{19443,6208},{19450,6213},{19450,5886},{19462,6214},{18657,6488},{17124,6487},{19474,5708},{19478,0},{18222,6491},{19487,0},{17161,6495},{19530,5216},{556,6496},{19493,0},{499,6498},{775,6499},{19502,0},{19505,0},{18711,6504},{556,6502},{19517,0},{19538,0},{19524,6511},{19529,0},{748,6507},{19532,0},{499,6513},{19550,0},{19547,0},{19567,5590},{748,6523},{19566,5772},{778,6524},{1305,6522},{778,6530},{19583,0},{19598,0},{18363,6522},{18804,6533},{19604,0},{819,6522},{19610,0},{2283,6522},{2268,6522},{18393,6538},{19619,0},{3273,6522},{19628,0},{2307,6522},{18829,6534},{2289,6522},{19631,0},{2280,6522},{19639,6545},{19646,0},{19637,0},{19658,0},{18825,6546},{1398,6522},{19650,4126},{3261,6522},{19661,0},{19667,0},{19685,0},{19691,0},{3270,6522},{19697,0},{3285,6522},{19675,6555},{4683,6522},{19709,0},{19715,0},{18493,6563},{19721,0},{19718,0},{19724,0},{3306,6522},{19733,0},{19739,0},{19751,0},{19748,0},{19766,0},{19761,6585},{19760,0},{4968,6522},{19775,0},{19778,0},{19784,0},{19793,0},{19788,6595},{19805,0},{19796,0},{19811,0},{19817,0},{19823,0},{19826,0},{19820,0},{357,6522},{18045,6615},{19859,0},{19865,0},{19871,0},{19868,0},{19880,0},{19874,0},{19877,0},{19895,0},{19886,0},{19845,6338},{19901,0},{19905,4951},{19913,0},{19931,0},{19925,0},{19922,0},{19928,0},{19916,0},{19919,0},{19937,0},{19943,0},{19946,0},{19961,0},{19976,0},{19973,0},{19964,0},{19967,0},{19970,0},{19991,0},{19985,0},{19986,6660},{19997,0},{20015,0},{20027,0},{20021,0},{20024,0},{20017,6022},{20045,0},{20042,0},{20057,0},{20054,0},{20016,6176},{1305,6672},{20066,0},{20069,0},{20017,6180},{20063,0},{20072,0},{20078,0},{20079,6694},{20016,6377},{20090,0},{18537,6708},{20111,0},{20114,0},{20108,0},{20120,0},{2283,6672},{819,6672},{3273,6672},{20141,0},{20138,0},{20144,0},{20135,0},{20150,0},{20166,6721},{20147,0},{20180,0},{20124,6395},{20181,6728},{2280,6672},{20171,0},{20174,0},{2307,6672},{2268,6672},{20198,0},{20192,0},{20195,0},{20201,0},{18556,6739},{20219,0},{20213,0},{4683,6672},{20237,0},{20234,0},{20225,0},{20258,0},{2289,6672},{1398,6672},{3261,6672},{3306,6672},{1090,6755},{20270,0},{20264,0},{20273,0},{20218,5861},{20300,0},{20285,0},{20294,0},{20279,0},{20276,0},{20226,6767},{3285,6672},{20318,0},{20321,0},{20315,0},{3270,6672},{4968,6672},{20339,0},{357,6672},{20345,0},{20325,6774},{20351,0},{702,6672},{20357,0},{20362,6434},{20381,0},{20378,0},{20367,6790},
{20375,0},{19290,6794},{20396,0},{20402,0},{20408,0},{20387,0},{20420,0},{20415,1088},{20427,6807},{20409,6804},{20442,6811},{19369,6808},{20426,0},{20424,6456},{20453,0},{20462,0},{20466,6821},{20477,0},{20483,0},{20487,6830},{20485,6825},{20475,6828},{20498,0},{20505,6834},{20485,135},{20518,6476},{20516,0},{19428,6839},{20521,6479},{20524,6478},{19437,6840},{20533,6057},{20533,6845},{20535,6844},{18171,6847},{20540,0},{20546,0},{20537,0},{18184,6846},{18636,6849},{20548,6484},{19452,6849},{14899,6723},{20558,0},{20561,0},{20570,0},{2292,6858},{17721,6857},{20579,0},{20582,0},{18264,6861},{2271,6858},{19518,6862},{20604,5589},{20595,5588},{20600,0},{20592,5587},{17295,6863},{17820,6872},{20603,0},{20610,6869},{16173,6873},{2286,6858},{17850,6860},{20618,0},{2301,6858},{20633,0},{20636,0},{20587,6506},{20641,6525},{20639,0},{20624,0},{20645,0},{20647,5409},{19575,6880},{16227,6882},{20652,5622},{20657,0},{20662,5963},{20666,0},{20660,0},{4653,6858},{20672,0},{20661,6121},{20675,0},{1305,6887},{20679,6541},{20684,0},{20693,0},{20690,0},{20696,0},{20620,5391},{18828,6887},{20685,6899},{20705,0},{20702,0},{819,6887},{19638,6903},{20709,6152},{2283,6887},{19662,6904},{20720,0},{20723,0},{20710,5997},{20717,0},{19674,6910},{20726,0},{2268,6887},{3273,6887},{20741,0},{2307,6887},{20731,6160},{19675,6907},{20737,5993},{20747,0},{2280,6887},{20750,0},{20736,6151},{20730,6299},{20753,0},{1305,6912},{2289,6887},{1398,6887},{20762,0},{3261,6887},{18492,6912},{20774,0},{2283,6912},{19740,6925},{3270,6887},{819,6912},{3285,6887},{4683,6887},{19752,6927},{19770,6931},{20798,0},{2280,6912},{3273,6912},{2268,6912},{2307,6912},{3306,6887},{2289,6912},{3261,6912},{1398,6912},{20832,6611},{4968,6887},{19830,6942},{19860,6947},{3270,6912},{20840,0},{3285,6912},{20853,6629},{4683,6912},{20850,6627},{20859,6952},{20865,6634},{20870,0},{20874,4498},{3306,6912},{20886,6961},{357,6887},{20895,6960},{19947,6963},{20901,6968},{4968,6912},{19992,6971},{20919,6659},{20004,6976},{20934,6669},{20940,6677},{20943,6678},{20028,6979},{20951,0},{20952,6683},{20966,0},{20958,6987},{20973,6691},{20969,0},{20978,0},{357,6912},{20091,6995},{20993,0},{20121,6998},{20999,0},{20127,7000},{20991,6710},{21017,0},{21014,0},{21020,0},{20154,7007},{21053,0},{20187,7014},{21047,0},{15402,7018},{21065,0},{21062,0},{21089,0},{21084,6743},{19185,7027},{20259,7031},{20250,7030},{21107,0},{21104,0},{21110,0},{21116,0},{21113,0},{20295,7041},{21081,6037},{20307,7045},{20310,7047},{21149,0},{21099,6780},{21161,0},{21156,6777},{20328,7050},{21164,0},{20352,7057},{21170,0},{20346,7055},{1392,7059},{21183,6788},{21182,0},{21189,6796},{21198,6799},{21203,0},{21188,0},{21205,6808},{20430,7070},{21219,6813},{21204,7078},{21168,166},{21239,0},{21240,6819},{21243,6824},{21263,0},{21271,6836},{20508,7090},{21281,0},{21287,0},{21290,0},{21302,0},{21304,6845},{21299,0},{20538,7103},{21314,0},{17658,7101},{21317,0},{21326,0},{21323,0},{21338,0},{21341,0},{21342,6089},{17259,7115},{775,7116},{17314,7118},{21353,0},{17823,7119},{17826,7120},{19542,7121},{21371,0},{17832,7122},{21380,0},{21374,0},{21354,5946},{21383,0},{21386,0},{21389,0},{17298,7130},{21395,0},{18786,7138},{21418,7140},{21420,7139},{21425,0},{17928,7142},{20667,7146},{21434,0},{21443,0},{21449,0},{21444,6139},{21450,6140},{21455,0},{21465,6146},{19641,7156},{21476,0},{19647,7161},{21488,0},{20706,7160},{21491,0},{21494,0},{21505,5998},{21497,0},{21509,0},{19674,7168},{19668,7167},{21515,0},{21521,0},{21524,0},{21504,6154},{21530,0},{21539,0},{21533,0},{21536,0},{21545,0},{21555,6163},{21554,0},{21551,0},{21563,0},{21560,0},{21566,0},{21572,0},{19743,7192},{21575,0},{21587,0},{21590,0},{21581,0},{21593,0},{21596,0},{21608,0},{21614,0},{21611,0},{21617,0},{21620,0},{21626,0},{21623,0},{21629,0},{21635,0},{21644,0},{21650,0},{21656,0},{21669,4178},{21674,0},{21692,0},{21732,6700},{20097,7243},{21741,6700},{21006,7247},{21755,0},{21762,6719},{21759,6720},{21771,7023},{21779,0},{21066,7256},{21783,6735},{21780,6740},{21786,6746},
{21789,6751},{21794,0},{21120,7268},{21117,7267},{21132,7271},{21821,0},{21856,6434},{21849,166},{21857,0},{21878,0},{21887,0},{21890,0},{21908,0},{21929,0},{21935,0},{21937,6214},{18642,7312},{18684,7315},{17769,7316},{21953,0},{21959,0},{21956,0},{21963,5774},{21962,0},{21957,6509},{748,7322},{556,7323},{499,7326},{20610,7324},{21989,0},{19551,7327},{20628,7330},{21984,6875},{22001,0},{21993,5783},{22002,5787},{21961,7137},{21974,0},{22013,0},{778,7339},{22022,0},{22026,5818},{22038,7153},{19618,7340},{22062,6557},{21510,7353},{22071,6562},{22067,0},{22076,0},{22068,6560},{19701,7362},{22083,6566},{22091,0},{22092,6568},{22101,7182},{20754,7368},{20766,7373},{20763,7372},{20769,7374},{20784,7380},{22146,6593},{20805,7385},{22152,6599},{22158,6602},{20820,7387},{19836,7389},{19854,7390},{22182,6636},{22187,0},{18523,7395},{19956,7396},{22186,6177},{22200,764},{21024,7402},{15858,7406},{22256,0},{22257,6794},{21276,7423},{21321,7426},{22278,7106},{22283,0},{22289,0},{775,7428},{18274,7429},{22290,6241},{22293,6871},{19509,7432},{22307,0},{18315,7433},{22302,6874},{22319,0},{22313,0},{22316,0},{22310,0},{22331,0},{22326,6241},{18336,7445},{18345,7446},{19560,7438},{19557,7437},{19563,7436},{22343,0},{19536,7448},{22014,7449},{22351,5630},{20679,7451},{16890,7450},{18426,7452},{21456,7451},{22367,0},{22371,7458},{22377,7360},{22395,7366},{19014,7479},{22437,6353},{22452,7403},{22457,0},{21861,7486},{22463,0},{19435,7488},{22466,0},{22469,0},{16405,7485},{19558,7502},{18702,7492},{22480,6503},{2292,7494},{22487,0},{22491,7493},{19509,7493},{499,7499},{22502,0},{19564,7504},{22323,7501},{19561,7503},{22518,6109},{22515,7444},{556,7507},{2271,7494},{22532,0},{22529,0},{748,7508},{2301,7494},{2286,7494},{22535,0},{22541,0},{22544,0},{22546,7514},{22550,0},{22553,0},{778,7518},{4653,7494},{22559,0},{22560,7458},{22568,0},{22569,6919},{22574,0},{22577,0},{16404,7527},{22586,0},{20526,7531},{22596,7491},{22601,0},{20601,7536},{22607,0},{22610,0},{22613,0},{22614,5949},{21346,7540},{22619,0},{22320,7542},{22625,0},{22634,0},{22604,0},{22637,0},{22631,0},{22624,6516},{22646,0},{19548,7541},{22658,0},{22649,0},{22661,0},{22664,0},{21402,7548},{21405,7552},{20610,7556},{22545,7557},{22676,0},{22677,6895},{22684,5427},{22688,0},{21477,7563},{16281,7561},{22694,0},{22695,7366},{22709,0},{22711,6434},{19302,7570},{22715,0},{17580,7606},{22740,7332},{18738,7575},{22724,0},{21375,7576},{22731,5945},{22736,0},{17260,7579},{22745,0},{21984,7582},{22641,7586},{22638,7583},{21403,7588},{22762,7133},{22776,5801},{22773,5799},{22779,5802},{21406,7590},{17299,7589},{22761,6878},{22518,7583},{22784,0},{22326,7583},{22787,0},{22767,5940},{22790,0},{22636,7581},{22793,0},{20628,7583},{18817,7599},{22803,5827},{22811,0},{22808,0},{19645,7602},{22812,7463},{22817,0},{22826,0},{21975,7613},{22488,7613},{22838,0},{22844,0},{22845,6518},{17845,7612},{22848,6109},{22835,0},{22853,0},{22859,0},{22755,7618},{22865,0},{22834,7534},{22868,0},{22871,0},{22885,7130},{19593,7624},{19584,7625},{19578,7626},{22883,0},{22889,0},{22886,0},{22898,0},{22892,0},{22904,0},{22905,6247},{22915,7157},{22680,7637},{22916,0},{19653,7640},{22056,7642},{20706,7642},{22935,7370},{22832,0},{22266,7646},{22831,3874},{22946,0},{22941,7498},{18318,7649},{775,7651},{2292,7652},{22961,0},{22752,7654},{22973,0},{22860,7656},{2286,7652},{2271,7652},{22979,0},{499,7664},{22988,0},{556,7665},{748,7663},{23004,6872},{21951,7669},{22734,7670},{2301,7652},{18745,7672},{23021,0},{23024,0},{21471,7675},{22801,7674},{4653,7652},{778,7676},{23033,0},{23036,0},{23039,0},{23040,3874},{23045,0},{20476,7681},{23048,0},{23057,0},{22950,7683},{23054,0},{23058,7617},{23063,0},{23060,0},{16812,7688},{23069,0},{22653,7690},{23075,0},{23078,0},{23081,0},{23086,7696},{23092,7512},{23096,0},{23099,0},{23102,0},{23108,0},{23105,0},{23085,7662},{23091,7447},{22008,7698},{23111,0},{22800,7705},{23123,0},{23120,0},{23128,5643},{23126,0},{16929,7709},{22368,7710},{23133,7170},{23136,6919},{23141,0},{21249,7714},
{23154,7719},{18756,7717},{23163,6255},{23162,0},{23166,7655},{23169,5224},{22650,7724},{22665,7726},{23177,0},{23181,5975},{23184,5974},{23192,0},{22009,7731},{23189,0},{23013,7732},{23210,0},{23202,5982},{23205,6109},{23199,6241},{23213,0},{23216,0},{23169,7658},{22870,7725},{23112,7739},{23222,0},{23226,7330},{23232,6006},{23237,0},{23240,0},{20704,7747},{21508,7746},{23246,0},{13629,7749},{23252,0},{23258,0},{23255,0},{23259,6256},{20632,7752},{23268,7658},{23267,0},{23273,0},{23276,0},{22983,7759},{23272,7622},{19605,7760},{19611,7761},{23291,0},{22630,7765},{19620,7767},{17320,7769},{16813,7768},{22882,7758},{23318,0},{23322,6135},{22923,7775},{23322,6265},{17764,7776},{23322,5803},{19692,7777},{22563,7779},{23322,6275},{22071,7779},{23322,6546},{22371,7779},{23322,6903},{23322,6152},{23322,6154},{23322,7168},{23322,6558},{23322,6910},{23322,6299},{23322,6167},{23322,6304},{23322,6015},{23322,6615},{23324,0},{23322,6338},{23322,7479},{23322,6353},{23322,6708},{23322,6179},{23322,7027},{23351,0},{23322,6395},{23322,6037},{23322,6436},{23350,4776},{23262,7786},{21396,7785},{775,7787},{2292,7788},{23369,0},{22980,7791},{22998,7792},{23381,0},{2286,7788},{556,7795},{2271,7788},{499,7796},{23384,0},{23423,0},{2301,7788},{748,7799},{23405,0},{23409,5996},{23414,0},{23417,0},{23426,0},{23420,0},{23230,7805},{778,7809},{4653,7788},{23432,0},{18894,7807},{23435,0},{23438,0},{23441,0},{23444,0},{23447,0},{23450,0},{23453,0},{23456,0},{23459,0},{23462,0},{23465,0},{23468,0},{23471,0},{23474,0},{23477,0},{23483,0},{23489,0},{23486,0},{23492,0},{23495,0},{23498,0},{14328,7833},{23504,0},{23507,0},{23510,0},{23513,0},{23519,0},{23516,0},{22977,7840},{23525,0},{19587,7842},{23522,0},{23531,0},{23001,7845},{23534,0},{18777,7842},{23540,0},{23549,0},{23543,0},{23546,0},{23020,7851},{23401,7851},{23394,7849},{22908,7847},{23560,7598},{23558,0},{23559,7598},{23401,7854},{15673,7855},{23229,7857},{23582,0},{23584,5646},{23588,0},{16938,7861},{18030,7864},{22932,7863},{23598,7354},{22365,7868},{23660,0},{21408,7891},{23370,7892},{23681,0},{23682,6124},{23687,0},{23688,7694},{22893,7897},{22899,7899},{23696,0},{23702,0},{23741,0},{22909,7903},{23395,7902},{23712,6273},{23703,6271},{23715,7739},{23720,0},{23717,0},{23723,0},{23726,0},{23715,7703},{23730,6280},{23735,0},{23718,7912},{23738,0},{23188,7898},{23744,0},{23751,6300},{23756,0},{23762,0},{18877,7921},{21535,7920},{22066,7922},{15432,7923},{23823,7703},{23777,0},{23774,0},{19582,7924},{23781,7335},{17421,7928},{23789,0},{23792,0},{23292,7932},{23795,0},{15273,7933},{23191,7930},{22032,7938},{23807,0},{22035,7937},{23810,0},{23404,7934},{23800,5091},{23817,7673},{22041,7945},{23832,7639},{23841,6001},{23849,0},{23832,7454},{23290,7931},{23832,6909},{23841,5803},{23841,6265},{23841,5806},{23334,7950},{23832,7643},{23841,6135},{22107,7951},{22698,7953},{23832,7780},{23832,7781},{23841,6275},{23841,6546},{23832,7954},{22101,7953},{23841,6903},{22395,7953},{23832,7956},{23841,6152},{22569,7953},{23841,6154},{23832,7955},{23841,7168},{23841,6558},{23841,6910},{23841,6299},{23841,6304},{23841,6015},{23841,6167},{23841,6338},{23841,6615},{23834,0},{23841,6353},{23841,7479},{23841,6179},{23841,6708},{23843,0},{23841,6395},{23841,6037},{23841,7027},{23832,6436},{23873,0},{23832,6193},{23841,6436},{17044,7957},{20649,7960},{23778,7959},{775,7962},{2292,7961},{23891,0},{23286,7965},{23900,0},{23391,7967},{23906,0},{499,7972},{2271,7961},{23909,0},{23924,0},{556,7970},{2286,7961},{23927,0},{23922,7940},{23926,7934},{23874,6275},{23928,6265},{2301,7961},{23936,0},{748,7977},{23939,0},{23874,6135},{23928,5803},{23874,6265},{23928,5806},{23945,0},{23951,0},{23954,0},{23960,0},{23957,0},{23963,0},{23928,6135},{23874,6546},{23966,0},{23749,7987},{23969,0},{778,7990},{4653,7961},{23975,0},{23928,6275},{23874,6903},{23978,0},{23874,6152},{23928,6546},{23984,0},{23981,0},{23987,0},{23928,6903},{23874,6154},{23993,0},{23990,0},{23996,0},{23928,6152},{23874,7168},{23999,0},{24002,0},{24005,0},{23928,6154},
{23874,6558},{24011,0},{24008,0},{24014,0},{24017,0},{24020,0},{23874,6910},{23928,7168},{24023,0},{23928,6558},{23874,6299},{23928,6910},{24026,0},{23874,6304},{23874,6015},{23928,6304},{23874,6167},{23928,6299},{24029,0},{23928,6167},{23874,6615},{23874,6338},{24035,0},{24032,0},{23928,6015},{23876,0},{24038,0},{24047,0},{24041,0},{23928,6615},{24050,0},{23874,7479},{23874,6179},{23928,6338},{23928,7479},{23874,6353},{24053,0},{23874,6708},{23874,6395},{23928,6353},{23928,6179},{24056,0},{23874,6037},{23928,6395},{23928,6708},{23874,7027},{24062,0},{23928,7027},{23874,6436},{24065,0},{23928,6037},{24068,0},{17043,8024},{23928,6436},{24080,0},{24083,0},{24086,0},{24089,0},{24095,0},{23382,8030},{15738,8032},{24092,0},{24101,0},{24107,0},{23298,8034},{24108,5234},{24134,0},{24113,0},{24116,0},{24125,0},{24120,7940},{24128,0},{24132,5806},{24140,0},{24137,0},{24143,0},{24146,0},{23319,8041},{23406,8037},{24151,7741},{24120,7948},{24150,7741},{24132,6265},{24161,0},{24167,0},{24158,0},{24164,0},{24132,6135},{24132,5803},{24191,0},{24188,0},{23748,8061},{24132,6275},{24197,0},{24202,5834},{24206,0},{17502,8067},{24207,6926},{24215,0},{24212,0},{24132,6546},{24221,0},{24224,0},{24132,6903},{24236,0},{24239,0},{24240,7459},{24132,6152},{24254,0},{24251,0},{24132,6154},{22566,8085},{24132,7168},{23037,8091},{24132,6558},{24269,0},{24266,0},{24132,6910},{24132,6299},{24290,0},{24287,0},{24132,6304},{24299,0},{24296,0},{24308,0},{24302,0},{24314,0},{24311,0},{24132,6167},{24317,0},{24320,0},{24132,6615},{24132,6015},{24326,0},{24329,0},{24332,0},{24341,0},{24132,6338},{24342,7826},{24132,6179},{24132,7479},{24132,6353},{24356,0},{24362,0},{24132,6708},{24368,0},{24365,0},{24371,0},{24374,0},{24132,6395},{24386,0},{24383,0},{24389,0},{24380,0},{24395,0},{24398,0},{24132,7027},{24401,0},{24404,0},{24132,6436},{24413,0},{24410,0},{24419,0},{24132,6037},{24425,0},{24428,0},{24507,7906},{21429,8145},{23892,8146},{24446,0},{24441,7145},{24450,7850},{24449,0},{23310,8151},{23313,8152},{24461,0},{24479,0},{14728,8154},{23320,8158},{23407,8156},{24471,6148},{13342,8149},{24477,5999},{24485,0},{24480,6150},{24147,8164},{24486,7856},{24500,0},{24503,0},{24495,6156},{24477,6909},{24512,0},{24525,7858},{24171,8173},{24515,0},{24477,7454},{24522,7859},{24477,6158},{24168,8172},{24533,0},{24530,0},{23809,8153},{24542,0},{24477,7639},{24192,8179},{24534,7865},{24545,0},{24552,6166},{24558,7782},{24557,0},{24216,8188},{24561,7867},{24477,7643},{24569,0},{24570,7869},{24228,8191},{24477,7780},{24578,0},{24243,8193},{24582,7870},{24477,7781},{24590,0},{20749,8195},{24477,7954},{24258,8198},{24591,7871},{24599,0},{21532,8200},{24477,7956},{24605,0},{24477,7955},{24612,7872},{24276,8205},{24611,0},{24620,0},{19714,8202},{24623,0},{24627,7873},{24632,0},{24633,7874},{24639,7875},{24648,7876},{24653,0},{24654,7877},{24665,0},{24662,0},{24669,7878},{24672,7879},{24681,8014},{24689,0},{24686,0},{24680,0},{24692,0},{24696,7880},{24701,0},{24705,7881},{24711,7882},{24716,0},{24726,7884},{24720,7883},{23655,8243},{24737,0},{24741,7887},{23664,8249},{24746,0},{24753,8114},{24758,0},{18129,8253},{24465,8019},{24770,0},{24773,0},{24777,6892},{21433,8256},{24782,0},{13341,8261},{14118,8261},{24788,0},{23919,8264},{24812,0},{24791,0},{24795,8155},{24799,8043},{24787,7935},{22044,8269},{24806,0},{24815,0},{24803,0},{22050,8273},{24825,8274},{24765,5806},{22077,8278},{24765,5803},{24839,0},{24765,6001},{24849,8058},{24855,8287},{24860,0},{24843,8282},{24854,0},{24867,8060},{23728,8263},{24864,8059},{24765,6265},{24882,8293},{24878,0},{23856,8291},{24885,8066},{22128,8296},{24893,0},{24900,8299},{24765,6135},{24905,0},{24765,6275},{24906,8075},{24909,8304},{24917,0},{24918,8077},{24765,6546},{24924,8307},{24929,0},{24930,8082},{24765,6903},{24938,0},{24765,6152},{24942,8313},{24953,0},{24945,8087},{24954,8090},{24765,7168},{24765,6154},{24477,8311},{24959,0},{24969,8094},{24960,8321},{24966,8093},{23832,8311},{24765,6558},{24477,8316},{24765,6910},{24477,8324},
{24975,8097},{23832,8316},{23832,8324},{24981,8101},{24765,6299},{24993,8107},{24765,6167},{24765,6304},{25002,8112},{24999,8111},{24765,6015},{24765,6615},{24765,7479},{24765,6338},{25017,8116},{25013,0},{25020,8117},{25014,8115},{25023,8119},{24765,6353},{25029,8125},{24765,6179},{25038,8130},{24767,0},{24765,6708},{24765,7027},{25050,8135},{24414,8353},{24765,6395},{24420,8355},{25062,7889},{24765,6037},{25070,0},{24765,6436},{25069,4983},{24774,8359},{22023,8358},{2292,8361},{775,8360},{25094,0},{25091,0},{23913,8365},{25100,0},{23727,8368},{24799,8367},{25109,0},{25112,0},{2286,8361},{25115,0},{499,8372},{24816,8374},{556,8376},{23422,8377},{2271,8361},{25136,0},{2301,8361},{748,8379},{25148,0},{25142,0},{23422,8384},{23422,8386},{25169,0},{25175,0},{25184,0},{23422,8392},{24550,8394},{778,8396},{4653,8361},{25191,6313},{23422,8398},{25199,0},{25205,0},{23422,8403},{25220,0},{23422,8407},{25232,0},{25238,0},{23422,8413},{25256,0},{25259,0},{25253,0},{25192,6313},{23422,8422},{25277,0},{25280,0},{25274,0},{25286,0},{25283,0},{25292,0},{25295,0},{25301,0},{25310,0},{25307,0},{25322,0},{25325,0},{25319,0},{25328,0},{23553,8444},{25346,0},{25352,0},{25107,8019},{25361,0},{25364,0},{25373,0},{25382,0},{25383,4983},{25388,0},{25391,0},{25397,0},{25394,0},{25400,0},{25401,7969},{25407,4926},{15297,8468},{25403,0},{25412,0},{25421,0},{23826,8471},{25418,0},{25422,6001},{25419,8045},{25425,8163},{25419,8163},{25430,0},{25437,8051},{25436,0},{25441,7980},{25448,0},{25445,0},{25454,0},{25143,8483},{25456,7915},{25440,7949},{23946,8478},{25161,8487},{25455,7915},{25155,8486},{25466,0},{25469,0},{25179,8491},{24549,8492},{25481,0},{25484,0},{25486,6168},{25490,0},{18504,8495},{25493,0},{25496,0},{25200,8499},{25212,8500},{25505,0},{25224,8502},{25511,0},{25233,8504},{25520,0},{25242,8505},{25524,8509},{25260,8507},{25535,0},{25539,8512},{25542,8208},{25545,8516},{25551,8212},{25554,8214},{24477,8510},{23832,8510},{25580,0},{25587,8452},{25599,8143},{25604,0},{22029,8537},{25086,8538},{25617,6544},{25622,0},{25629,8039},{25628,0},{5842,8541},{23829,8544},{25626,358},{25640,0},{23838,8547},{25649,0},{25635,8045},{25647,5999},{23740,8548},{25653,8370},{25650,6001},{23740,8553},{23947,8554},{25650,5806},{25647,6158},{25656,7172},{25667,0},{25650,5803},{25647,6909},{25668,7175},{25688,0},{25650,6265},{25149,8559},{25647,7639},{25650,6135},{25674,7180},{25685,0},{25647,7454},{25170,8565},{25164,8563},{25694,0},{23757,8567},{25650,6275},{25647,7643},{24805,8546},{25185,8568},{25709,0},{25647,7780},{25650,6546},{25719,7201},{25724,0},{20799,8575},{25206,8577},{25650,6903},{25647,7781},{25215,8578},{25650,6152},{25647,7954},{25227,8580},{25647,8311},{25650,6558},{25647,7955},{25650,7168},{25650,6154},{25647,7956},{25245,8582},{25650,6910},{25248,8584},{25647,8316},{25647,8324},{25650,6299},{25650,6167},{25650,6304},{25647,8510},{25263,8585},{25269,8586},{24978,8589},{25650,6015},{25287,8588},{24984,8591},{25296,8590},{24987,8592},{25784,0},{25650,6615},{25781,0},{25650,6338},{25650,7479},{25650,6353},{25650,6179},{25650,6708},{23740,8596},{25650,6395},{25650,7027},{25652,0},{25650,6037},{15894,8598},{25650,6436},{25799,0},{25802,0},{20692,8599},{25803,7453},{25811,0},{25813,357},{25817,0},{25835,0},{25820,0},{25119,8608},{25829,0},{25833,5806},{25838,0},{25841,0},{25847,0},{25833,5803},{25842,6001},{25819,8267},{25853,0},{25833,6265},{22380,8620},{25859,0},{25856,0},{25842,5806},{25823,0},{25871,0},{25868,0},{25833,6275},{22386,8624},{25833,6135},{25842,6265},{25842,5803},{25898,0},{25880,0},{23740,8627},{25889,0},{25886,0},{22392,8630},{23740,8634},{23740,8633},{25833,6546},{25910,0},{25842,6135},{24505,8609},{25916,0},{25913,0},{23740,8640},{24894,8641},{25842,6275},{25833,6903},{25931,0},{25928,0},{22413,8644},{25940,0},{25842,6546},{25833,6152},{23740,8647},{25946,0},{25949,0},{23740,8650},{25842,6903},{25833,6154},{25958,0},{25955,0},{23740,8653},{25833,6910},{25842,7168},{25967,0},{25964,0},{25842,6154},{25833,7168},{25833,6558},
{25842,6152},{25973,0},{25976,0},{25970,0},{25979,0},{25833,6299},{23740,8660},{25842,6558},{25842,6910},{25991,0},{25833,6304},{25833,6015},{23740,8662},{25842,6304},{25985,0},{25997,0},{25833,6167},{25842,6299},{26000,0},{25994,0},{23740,8670},{23740,8669},{26003,0},{26006,0},{25833,6615},{25842,6167},{26018,0},{23422,8671},{23740,8673},{23740,8675},{23422,8674},{23422,8676},{25842,6015},{25833,6338},{26037,8519},{26036,0},{26031,8219},{25833,7479},{25842,6615},{26042,0},{25842,6338},{25833,6353},{26045,0},{25842,7479},{25833,6179},{26048,0},{25842,6353},{25833,6708},{26051,0},{25833,6395},{25842,6179},{26054,0},{26057,0},{25833,7027},{25842,6708},{26060,0},{25833,6037},{25842,6395},{26063,0},{25844,0},{25833,6436},{25842,7027},{26069,0},{25842,6037},{26072,0},{26075,0},{25842,6436},{21265,8607},{25821,7088},{15898,8690},{19014,8716},{25806,8693},{21462,8692},{2292,8694},{775,8695},{24811,8698},{26092,8607},{25125,8700},{25830,8699},{26111,0},{26105,0},{24504,8702},{26092,8698},{26115,7934},{26126,0},{26123,0},{556,8712},{2286,8694},{26129,0},{26147,0},{26135,0},{26171,0},{26159,0},{2271,8694},{499,8720},{26168,0},{26165,0},{2301,8694},{23803,8705},{748,8729},{26195,0},{26192,0},{26204,0},{26198,0},{18003,8716},{26207,0},{17409,8716},{26216,0},{17418,8716},{18795,8716},{26219,0},{18825,8716},{18405,8716},{26225,0},{26222,0},{25717,8739},{778,8744},{4653,8694},{26235,6170},{19638,8716},{26243,0},{26240,0},{18456,8716},{20709,8716},{26255,0},{26261,0},{26258,0},{26276,0},{26270,0},{26273,0},{26288,0},{18462,8716},{26291,0},{26285,0},{26294,0},{26236,6170},{26315,0},{26312,0},{26309,0},{26333,0},{26327,0},{26318,0},{26324,0},{26330,0},{21504,8716},{26342,0},{26345,0},{26366,0},{26369,0},{19674,8716},{26378,0},{26375,0},{26384,0},{26387,0},{20730,8716},{26393,0},{26390,0},{25302,8798},{24996,8800},{18897,8716},{26408,0},{26405,0},{18045,8716},{18912,8716},{26417,0},{26414,0},{19845,8716},{18501,8716},{26423,0},{26426,0},{26432,0},{26435,0},{19059,8716},{22437,8716},{26441,0},{26444,0},{18537,8716},{26456,0},{26453,0},{20124,8716},{26465,0},{26462,0},{22260,8716},{19185,8716},{21081,8716},{26474,0},{26477,0},{26483,0},{18111,8716},{16449,8828},{19308,8716},{26148,6831},{26492,0},{26097,8688},{26498,0},{26501,0},{26507,0},{26510,0},{25113,8838},{26513,0},{26516,0},{26522,0},{26519,0},{26525,0},{26528,0},{26538,8839},{26537,0},{26112,8843},{24831,8844},{26541,8616},{26139,8848},{26547,8714},{26555,0},{26540,0},{26562,8718},{26151,8853},{26552,0},{25849,8847},{26575,8490},{26568,8727},{26172,8855},{26184,8859},{26573,0},{26580,8725},{24870,8850},{26585,0},{26574,8490},{26590,8182},{26586,8567},{26589,8182},{26208,8866},{26606,0},{26601,8737},{25716,8874},{26229,8878},{26631,8742},{26639,0},{26645,0},{26641,6016},{26648,0},{18048,8880},{26652,8749},{26250,8885},{26667,8755},{26262,8890},{26280,8891},{26679,8759},{26682,8766},{26304,8898},{26688,8765},{26301,8897},{25647,8899},{26706,8778},{26319,8900},{26349,8905},{26718,8779},{26712,8782},{26727,8786},{26361,8910},{26733,8790},{23832,8899},{24477,8899},{26757,8799},{23422,8922},{23740,8921},{26780,0},{26775,8803},{26778,6398},{18109,8930},{26784,8806},{26792,0},{17704,8834},{26799,8809},{26504,0},{26805,8812},{18121,8937},{26810,0},{26813,0},{26814,8815},{26822,0},{26808,6455},{26826,8819},{26829,7077},{26838,6395},{26466,8945},{26526,8688},{20424,8940},{21877,8947},{21232,8943},{26845,5869},{26844,5869},{26478,8949},{18136,8952},{26856,6045},{26853,8829},{26861,0},{26865,6436},{19405,8954},{26520,8966},{26088,8960},{22047,8961},{26889,7351},{26888,0},{26892,8477},{26895,8966},{26904,6001},{24828,8967},{24840,8970},{26918,0},{26907,6001},{26913,8706},{26898,6001},{26919,8557},{26925,8974},{26895,8977},{24871,8980},{26934,8979},{26928,6570},{26943,8566},{26907,6265},{26907,6275},{25444,8973},{26949,8985},{26907,5803},{26907,6135},{26961,8984},{26958,6576},{26945,0},{26907,5806},{26966,0},{26972,0},{26907,6903},{26978,0},{26907,6546},{26967,6578},{26981,0},{26988,8994},{26907,6152},
{25852,8972},{26993,0},{26997,8998},{26907,6154},{26907,7168},{27003,6604},{27014,0},{19827,9003},{27015,9006},{26907,6558},{27021,9008},{26907,6910},{27030,9009},{27039,9014},{27033,9012},{27047,0},{26907,6299},{27048,9017},{27057,9018},{27063,9022},{26907,6304},{27074,0},{26907,6167},{27077,0},{26907,6338},{26907,6015},{27083,0},{27088,6186},{26907,6615},{27095,0},{27097,8526},{27096,8595},{18108,9034},{17703,9037},{26907,7479},{26907,6708},{18120,9041},{27121,6194},{26907,6353},{26907,6179},{27130,6808},{27143,0},{27147,8823},{27140,0},{27152,0},{26907,6395},{26907,6436},{27155,0},{26907,7027},{26909,0},{26907,6037},{27164,0},{27173,0},{16452,9059},{27182,0},{27185,0},{27191,0},{27194,0},{27195,7166},{18862,9064},{27204,5999},{27186,5806},{27203,0},{24811,9069},{27212,0},{27221,0},{27215,0},{24811,9074},{26130,9072},{26149,9075},{24811,9077},{25666,9070},{24811,9080},{27234,8839},{27239,0},{22398,9081},{27204,7454},{27186,6135},{27186,6546},{27186,6265},{27204,7643},{27248,0},{27204,7639},{27204,6909},{27186,6275},{27266,0},{22404,9090},{27254,0},{27204,6158},{27186,5803},{27263,0},{27251,0},{27273,8488},{27204,7781},{27186,6903},{27255,8864},{24811,9089},{27186,6152},{24811,9086},{27204,7780},{27287,0},{27293,0},{27278,0},{27257,0},{22407,9098},{24811,9100},{27186,6154},{27204,7954},{25681,9071},{27305,0},{25935,9103},{27186,7168},{24811,9104},{27204,7956},{27204,7955},{27186,6558},{27320,0},{27317,0},{22425,9107},{27329,0},{24811,9110},{27204,8311},{27186,6910},{27335,0},{24811,9112},{27204,8316},{27186,6299},{27341,0},{24811,9114},{24811,9115},{24811,9116},{27186,6304},{27204,8324},{27351,8903},{27356,0},{24811,9119},{24811,9120},{27186,6167},{27204,8510},{24811,9121},{27368,0},{27186,6015},{27204,8899},{27369,8215},{27374,0},{27186,7479},{27380,0},{27186,6615},{27375,8520},{27383,0},{27186,6338},{27392,0},{27398,0},{27401,0},{27106,9134},{27404,0},{27186,6353},{27410,0},{27118,9135},{27186,6395},{27407,0},{27413,0},{27418,9138},{27186,6179},{27422,0},{27416,0},{27186,6708},{27425,0},{27427,9044},{27428,0},{21891,9145},{24811,9144},{27186,7027},{22263,9143},{27443,0},{27446,0},{27188,0},{27186,6037},{27186,6436},{27452,0},{27458,0},{27453,8839},{18597,9154},{27467,0},{20499,9156},{17617,9155},{27184,9284},{27198,9158},{19677,9159},{775,9160},{2292,9161},{27491,0},{27488,0},{25863,9166},{27496,8367},{25680,9168},{27507,8367},{27497,0},{27512,0},{27514,8607},{556,9177},{27525,5803},{27525,6135},{27525,5806},{27525,6265},{27521,0},{2286,9161},{27560,0},{27536,0},{27545,0},{27542,0},{27525,6001},{27557,0},{27548,0},{27554,0},{27539,0},{27513,8716},{27525,6546},{27525,6275},{27549,8733},{27605,0},{27584,0},{27599,0},{27587,0},{499,9188},{27575,0},{27593,0},{27590,0},{27596,0},{27572,0},{2271,9161},{748,9206},{2301,9161},{27615,8731},{27623,0},{27525,6903},{27629,0},{27626,0},{27632,0},{27638,0},{27525,6152},{27525,6154},{27650,0},{27653,0},{27007,9212},{27647,0},{27641,0},{778,9220},{4653,9161},{27663,6614},{27525,7168},{27671,0},{27674,0},{27525,6558},{27686,0},{27683,0},{27525,6910},{27704,0},{27701,0},{27060,9235},{27664,6614},{27525,6299},{27719,0},{27722,0},{27525,6304},{24990,9245},{27734,0},{27731,0},{27525,6615},{27743,0},{27525,6167},{25314,9250},{27749,0},{27525,6015},{27758,0},{27770,0},{27105,9257},{27525,6338},{27776,0},{27525,6179},{27782,0},{27785,0},{27117,9262},{27525,7479},{27797,0},{27793,8816},{27794,0},{27525,6353},{27417,9267},{27806,0},{27132,9271},{27812,0},{27525,6708},{27824,0},{27827,0},{27525,6037},{27154,9272},{27818,0},{27821,0},{27525,6436},{27525,6395},{27525,7027},{27839,0},{27842,0},{27834,9151},{27527,0},{27854,0},{17616,9285},{27860,0},{26494,9286},{27863,0},{27872,0},{27869,0},{27878,0},{26127,9291},{27882,9293},{27875,0},{27889,9076},{27887,0},{27894,9299},{27893,0},{27890,0},{25875,9300},{27905,0},{27897,8367},{27917,0},{27911,0},{27926,0},{27908,0},{27914,0},{27920,0},{27576,9311},{27963,9096},{27927,9187},{27962,0},{27941,0},{27936,9189},{27959,0},{27951,9193},{27998,0},{27987,9203},
{27972,9202},{27612,9327},{27969,9328},{27979,8869},{27978,8869},{28000,8571},{28004,0},{25917,9302},{28007,0},{27999,8571},{28013,0},{28017,9211},{27006,9341},{28031,0},{28028,0},{28044,9219},{28035,9218},{28040,0},{28052,0},{28048,6945},{28055,0},{20835,9349},{28058,0},{28062,9225},{28067,0},{28068,9229},{28076,0},{28080,9236},{24811,9361},{25647,9362},{28091,0},{28092,9242},{28100,0},{24477,9362},{23832,9362},{23422,9367},{28107,9246},{28112,0},{27204,9362},{28118,0},{27744,9371},{28122,9251},{23740,9373},{28127,0},{28128,9253},{28136,0},{28139,0},{28140,9259},{28145,0},{27789,9383},{28154,0},{28157,0},{28163,0},{27798,9386},{28164,8816},{28169,0},{28172,0},{28173,9269},{28178,0},{28184,0},{28193,0},{28188,9053},{27828,9395},{27447,9399},{28205,0},{28194,9400},{28211,0},{28208,0},{27846,9405},{28189,9053},{28212,9281},{28195,9400},{27849,9407},{27471,9408},{28229,0},{26493,9410},{28235,0},{28264,9172},{26149,9515},{27492,9414},{20733,9413},{28250,0},{28245,6914},{28254,8852},{28251,9167},{25893,9420},{28259,0},{27228,9423},{25905,9422},{28274,0},{28263,9172},{27508,9426},{27948,9432},{27945,9431},{27930,9428},{28287,7375},{28281,9314},{25918,9430},{28311,9331},{27966,9436},{27975,9439},{28304,0},{28323,7378},{28352,0},{26947,9424},{28343,0},{28347,7381},{28358,0},{28014,9453},{28032,9456},{28367,0},{28041,9457},{28383,7391},{28394,0},{21645,9463},{28059,9465},{28071,9467},{28077,9469},{28418,0},{28095,9473},{28104,9475},{28433,0},{28430,0},{28436,0},{28445,0},{28493,0},{27438,9501},{28520,0},{28509,9277},{28526,0},{28514,0},{28544,0},{28550,0},{18603,9517},{28556,0},{28561,8871},{28571,0},{28568,0},{28575,7461},{21538,9523},{26149,9527},{28600,9301},{28580,0},{26178,9529},{28586,0},{28599,9425},{26946,9532},{28592,0},{28595,0},{28603,8865},{28585,9079},{26179,9529},{28622,0},{21582,9538},{28299,9539},{28305,9535},{28314,9536},{28320,9537},{28602,8730},{28329,9543},{28326,9542},{28335,9544},{28332,9541},{21597,9545},{28643,0},{21600,9549},{28560,8738},{28362,9551},{26974,9531},{28374,9554},{27324,9553},{28377,9552},{21639,9555},{28673,0},{28398,9558},{28404,9559},{28410,9560},{28683,8912},{28422,9562},{28437,9563},{28692,8222},{28695,8521},{28701,9482},{28497,9568},{27157,9569},{28709,0},{28710,9572},{27459,9573},{28563,9288},{28564,9288},{28730,0},{26874,9577},{18157,9576},{22095,9579},{28572,9580},{2292,9582},{775,9581},{28751,0},{28754,0},{27528,9587},{28760,0},{28766,0},{28769,0},{26973,9591},{2286,9582},{28750,9318},{28778,0},{28782,8570},{28781,0},{556,9596},{28805,0},{25822,9597},{26149,9599},{26149,9600},{26149,9598},{25822,9605},{26149,9603},{28784,0},{28814,0},{26149,9602},{499,9606},{2271,9582},{28736,0},{2301,9582},{748,9608},{28829,0},{26149,9610},{28835,0},{26149,9614},{28841,0},{26149,9612},{28387,9613},{778,9615},{4653,9582},{28848,6632},{26149,9617},{26149,9618},{26149,9619},{27069,9620},{28849,6632},{26149,9621},{26149,9622},{25311,9624},{25005,9623},{28452,9625},{28880,0},{27811,9626},{28883,0},{27156,9628},{27169,9630},{28537,9629},{28889,0},{28892,0},{28895,0},{18156,9633},{28904,0},{28907,0},{28910,0},{28913,0},{28917,9173},{28916,0},{28920,8716},{27522,9641},{28919,0},{28928,0},{28770,9643},{27282,9645},{28940,0},{28945,9330},{28946,0},{28943,0},{28952,0},{28967,0},{28958,0},{28972,8870},{28970,0},{28980,8493},{28987,8875},{28979,0},{28973,0},{28969,8872},{28994,0},{28988,0},{28990,9340},{28966,8873},{27306,9652},{28989,9340},{29000,0},{29002,9000},{28978,8876},{29001,9000},{27523,9641},{29008,8883},{29009,0},{29021,0},{28386,9672},{29014,8886},{29020,8887},{29024,0},{29015,0},{29026,6340},{29030,0},{29033,0},{19020,9675},{29035,8895},{29036,0},{29038,8908},{29039,0},{29041,8913},{29042,0},{24811,9681},{25647,9682},{29050,8918},{29051,0},{23832,9682},{29053,8923},{24477,9682},{23740,9685},{29054,0},{23422,9686},{26149,9687},{27204,9682},{28179,9688},{29075,0},{29078,0},{29081,0},{28536,9694},{27168,9695},{28725,9696},{29093,0},{29095,6474},{19422,9698},{28755,9701},{22113,9700},{29109,6575},{29108,0},
{29117,0},{29112,9171},{29118,9307},{29126,0},{27279,9707},{29129,0},{27297,9710},{29139,6589},{29136,9198},{28353,9714},{27307,9716},{26619,9715},{26616,9718},{29153,0},{26610,9722},{26628,9721},{29162,0},{29159,0},{28777,9708},{29171,0},{29172,6936},{29186,0},{28339,9709},{26625,9725},{29190,6939},{29198,0},{29189,0},{26245,9734},{29201,0},{26244,9734},{29207,0},{26649,9736},{29222,0},{26661,9737},{29219,0},{29216,0},{29183,0},{26658,9742},{29232,6957},{29240,0},{21666,9745},{29243,0},{26685,9748},{29249,0},{26724,9750},{29255,0},{26739,9752},{29264,0},{29267,0},{26754,9756},{29273,0},{29276,0},{26769,9761},{29279,0},{29288,0},{29290,8927},{29294,0},{29291,0},{29297,0},{29312,0},{29309,0},{29315,0},{19425,9772},{29324,0},{29327,0},{29330,0},{20761,9776},{29331,7467},{29345,0},{29340,9200},{29337,9644},{29351,0},{29346,9649},{29357,0},{28338,9784},{29363,0},{29358,7470},{29341,9200},{29364,9661},{29350,9540},{29373,9792},{29372,0},{29369,0},{29382,9795},{29391,8576},{29381,0},{29376,9798},{29405,0},{29393,0},{29408,0},{22419,9799},{29375,0},{22422,9803},{29426,0},{28345,9785},{29432,0},{29436,9813},{28668,9814},{29439,9811},{29450,0},{22434,9817},{29384,0},{29459,0},{29465,0},{29438,0},{29471,0},{29477,0},{29478,8920},{29486,0},{29487,8225},{29495,0},{29496,8524},{29505,9486},{29504,0},{26781,9836},{29521,9519},{28557,9840},{29525,0},{29524,5882},{29334,9843},{21567,9844},{775,9846},{2292,9845},{29549,0},{26986,9848},{28785,9850},{29555,0},{29561,0},{29544,8868},{28344,9852},{2286,9845},{29568,9658},{556,9855},{29569,9658},{29573,0},{29579,0},{29580,9727},{29576,0},{29588,0},{29591,0},{2271,9845},{25494,9867},{499,9869},{2301,9845},{748,9871},{29134,9849},{29621,0},{29630,0},{29627,0},{29230,9876},{778,9879},{4653,9845},{29643,7480},{29644,7480},{27078,9886},{25008,9888},{25335,9890},{28461,9891},{29681,0},{29687,0},{17646,9896},{28905,9897},{29693,0},{28959,9905},{29699,0},{29696,0},{29705,0},{28779,9900},{29702,0},{29133,9902},{29711,0},{29714,0},{29710,9654},{28644,9906},{29723,0},{29729,0},{29726,0},{29733,9607},{29734,9607},{29388,9913},{29742,9864},{29747,0},{29751,9868},{29764,9670},{29762,0},{29759,0},{29770,9460},{29768,0},{29763,9670},{29769,9460},{29773,8888},{29774,0},{29229,9926},{29781,9878},{29732,0},{29786,0},{29788,7226},{29792,0},{29795,0},{21678,9929},{27204,9932},{24811,9933},{25647,9932},{24477,9932},{23422,9934},{23832,9932},{23740,9935},{26149,9936},{29819,0},{29822,0},{22131,9943},{29541,9944},{29840,0},{29835,7379},{29846,0},{29847,9654},{29841,9651},{29854,9336},{28638,9950},{29855,0},{29828,0},{28650,9955},{29862,7383},{29858,0},{29873,0},{29870,0},{29876,0},{29412,9960},{29877,9860},{28735,9942},{29885,0},{29892,6613},{29903,0},{29898,6616},{29179,9952},{29906,0},{29910,8751},{29915,0},{29928,6651},{22701,9977},{29936,0},{29939,0},{29945,0},{29948,0},{29951,0},{29954,0},{29959,8931},{29960,0},{18618,9987},{29972,0},{29969,0},{29976,6930},{19765,9989},{29984,0},{29987,0},{29562,9993},{29993,0},{29997,9665},{29730,9996},{29736,9996},{29994,9207},{30003,6937},{29178,10002},{30002,0},{30012,10003},{30012,9800},{29992,9789},{29754,10005},{30018,9795},{29427,10009},{30024,8579},{22428,10010},{30026,0},{30041,0},{22431,10012},{30047,0},{29194,10000},{29454,10016},{22443,10017},{30056,0},{28440,10020},{30063,8924},{30066,8522},{30072,8231},{30077,0},{26793,10026},{30083,0},{30082,5492},{29973,10028},{20787,10029},{2292,10031},{775,10030},{30096,9953},{30104,0},{29583,10035},{30119,0},{30113,0},{30110,0},{556,10040},{29193,10042},{30125,0},{2286,10031},{30131,0},{30140,0},{30141,9809},{30137,0},{30149,0},{30146,0},{499,10050},{2271,10031},{25503,10051},{748,10053},{2301,10031},{29737,10034},{30167,0},{30170,0},{29926,10056},{4653,10031},{778,10057},{30174,7482},{30175,7482},{28449,10059},{27090,10060},{25338,10061},{25026,10062},{30194,0},{16476,10065},{30200,0},{30203,0},{30206,0},{30209,0},{29574,10070},{30212,0},{30114,10072},{30215,0},{29170,10071},{29004,10076},{30222,10075},{30221,0},{30232,9866},
{29415,10079},{30236,0},{30242,0},{29889,10082},{30231,9866},{30258,9874},{30266,0},{30262,9925},{30269,0},{30271,9741},{30261,9925},{30275,0},{30270,9741},{29736,10072},{30277,8892},{30278,0},{29925,10094},{30287,0},{30292,6667},{30290,0},{30296,0},{20001,10097},{25822,10100},{24477,10099},{25647,10099},{24811,10101},{23740,10102},{23832,10099},{23422,10103},{27204,10099},{30317,0},{30099,10107},{20802,10108},{30332,0},{30327,6600},{30333,9916},{29595,10113},{29394,10113},{30338,0},{30344,0},{30132,10117},{30347,0},{30354,10081},{29421,10120},{30359,0},{30363,7388},{27642,10114},{29400,10117},{30371,0},{30368,0},{30375,7392},{30389,0},{29887,10119},{30390,7393},{30395,0},{30398,0},{30402,8756},{30407,0},{30414,7397},{22704,10139},{30422,0},{27387,10141},{30428,0},{30431,0},{30440,0},{30443,0},{27388,10141},{30446,0},{17649,10149},{30455,0},{30452,0},{30459,7472},{19804,10151},{30467,0},{30348,10157},{30464,0},{30470,0},{27643,10158},{29418,10160},{30479,0},{30488,0},{29886,10163},{30500,0},{30497,0},{29872,10166},{21630,10164},{30255,10168},{30481,9806},{21651,10169},{30515,0},{21663,10172},{30522,9973},{30527,0},{29896,10162},{30057,10176},{21702,10177},{30536,0},{30543,8525},{30542,0},{30546,8929},{30549,8234},{30558,9489},{30563,0},{30562,5884},{20814,10188},{30456,10189},{2292,10191},{775,10190},{30021,10192},{30581,0},{30590,0},{29610,10195},{30593,0},{30483,10198},{29895,10199},{30602,0},{556,10204},{30611,0},{2286,10191},{29871,10201},{29877,10192},{30617,0},{30618,8581},{30620,0},{499,10207},{2271,10191},{748,10209},{2301,10191},{30589,10193},{29989,10210},{30638,0},{30641,0},{30412,10213},{4653,10191},{778,10214},{30645,6364},{30646,6364},{25341,10216},{27393,10217},{27099,10218},{25035,10219},{28470,10220},{17652,10221},{30668,0},{30666,10066},{30745,8901},{30671,0},{30674,0},{30135,10226},{30677,0},{29152,10230},{30683,0},{30687,10228},{30680,0},{30698,0},{29616,10231},{30701,0},{30033,10234},{30716,0},{30706,10052},{30713,0},{30705,10052},{30381,10240},{29182,10239},{30719,0},{30725,0},{30726,8503},{30734,0},{30730,10093},{30736,9974},{30729,10093},{30740,0},{30735,9974},{30746,0},{30741,8776},{30742,8907},{30411,10250},{30755,0},{30760,6365},{30758,0},{30764,0},{19095,10253},{24477,10255},{23832,10255},{30773,0},{23740,10256},{25647,10255},{24811,10258},{23422,10259},{27397,10257},{26149,10260},{27204,10255},{30785,0},{30791,0},{20823,10265},{30582,10266},{30803,0},{30804,6943},{30809,0},{30249,10270},{30815,0},{30816,10084},{30501,10273},{30824,0},{30042,10275},{30830,0},{27666,10269},{30012,10277},{30837,6630},{30141,10270},{30842,0},{30845,0},{30848,0},{29445,10283},{30018,10270},{30823,9969},{30857,0},{27678,10282},{30858,6644},{30870,6650},{30379,10276},{30869,0},{30875,0},{30876,8770},{30881,0},{30884,0},{30887,0},{30894,6686},{30902,0},{20979,10299},{30905,0},{27762,10303},{30908,0},{30917,0},{30923,0},{30926,0},{30932,0},{30929,0},{18633,10311},{30941,0},{30944,0},{18988,10313},{30948,7212},{30606,10319},{30956,0},{30962,0},{27667,10317},{29907,10322},{30965,0},{30971,0},{30378,10324},{30355,10326},{30977,0},{21660,10327},{30986,0},{30852,10330},{27679,10331},{30998,0},{31004,0},{31001,0},{31010,0},{30835,10321},{21681,10337},{31019,0},{21687,10338},{30882,10343},{31028,0},{30385,10323},{30537,10345},{21723,10346},{31046,0},{31047,8523},{31052,0},{31053,8236},{31056,8932},{30928,10354},{28482,10355},{31068,10308},{31073,0},{30945,10359},{19851,10358},{775,10361},{2292,10360},{30372,10363},{31097,0},{31088,0},{31100,0},{30834,10367},{31109,0},{30384,10368},{556,10372},{29883,10373},{2286,10360},{31112,0},{31124,0},{29580,10376},{31127,0},{29640,10378},{31131,8583},{31133,0},{31142,0},{31096,10362},{499,10381},{2271,10360},{748,10383},{2301,10360},{31154,0},{31160,0},{31163,0},{30892,10387},{4653,10360},{778,10388},{31167,6701},{25329,10390},{31168,6701},{27765,10391},{25032,10392},{27108,10393},{28488,10395},{31190,0},{17097,10397},{31192,5699},{31199,0},{31196,0},{31205,0},{31200,10236},{31202,0},
{31209,10404},{31208,0},{30162,10405},{31220,0},{30510,10407},{31226,0},{29206,10410},{31235,0},{31228,10208},{29197,10414},{31227,10208},{31005,10413},{29161,10416},{31253,0},{25518,10418},{31264,10249},{29221,10402},{31268,0},{31262,0},{31263,10249},{31274,0},{31270,10136},{31269,10136},{26352,10420},{30891,10427},{31286,0},{31289,0},{31291,7245},{31295,0},{21735,10430},{23740,10432},{24477,10433},{23832,10433},{31304,0},{23422,10435},{25647,10433},{24811,10436},{27204,10433},{27769,10434},{25822,10437},{31319,0},{31322,0},{20844,10441},{31092,10442},{31329,6949},{31334,0},{29631,10447},{31340,0},{31335,10203},{30987,10449},{31346,0},{30519,10451},{31352,0},{31358,0},{31359,6964},{31370,0},{31367,0},{31373,0},{31345,10133},{29433,10447},{27693,10458},{31382,0},{27690,10452},{26353,10464},{31376,0},{31389,6970},{31388,0},{27696,10455},{31398,6975},{31397,0},{30862,10450},{31406,0},{27711,10462},{31412,0},{31409,0},{31416,7001},{21747,10474},{31427,0},{31433,0},{31436,0},{31445,0},{31442,0},{28131,10479},{31451,0},{31453,10485},{31452,10485},{17670,10486},{31466,0},{31469,0},{31470,7219},{19894,10488},{31478,0},{31113,10493},{31484,0},{31487,0},{30399,10496},{30861,10498},{31493,0},{21684,10500},{27691,10499},{31377,10503},{27697,10502},{31517,0},{31514,0},{31526,0},{31541,0},{21693,10511},{27694,10510},{31363,10495},{31529,0},{27712,10512},{21699,10514},{31550,0},{31556,0},{30865,10497},{31520,0},{31041,10519},{21750,10521},{31568,0},{31572,8527},{31578,8934},{31575,8239},{31586,0},{31587,9498},{31592,0},{31595,0},{31598,0},{17107,10532},{31473,10534},{20862,10533},{775,10535},{2292,10536},{29916,10537},{31616,0},{31362,10540},{31625,0},{31628,0},{30864,10543},{556,10544},{2286,10536},{31126,10538},{31637,0},{31643,0},{31640,0},{29649,10548},{31647,8587},{31649,0},{31670,0},{31664,0},{31661,0},{499,10552},{31665,10425},{2271,10536},{2301,10536},{748,10557},{4653,10536},{31682,0},{31688,0},{31420,10562},{778,10563},{31692,6725},{25347,10565},{31693,6725},{28464,10568},{27114,10566},{25041,10567},{28500,10569},{17673,10572},{31721,0},{30633,10581},{31727,0},{31724,0},{31733,0},{31728,10412},{31245,10579},{31736,0},{31730,0},{31742,0},{31020,10582},{31751,0},{31518,10587},{31753,10382},{31757,0},{31760,0},{31752,10382},{31521,10589},{31775,0},{29218,10590},{25533,10592},{29242,10578},{26355,10586},{31761,10595},{31789,10426},{31796,0},{31788,10426},{31799,0},{31801,10296},{31800,10296},{31805,0},{31419,10603},{31814,0},{31816,6397},{19191,10605},{31820,0},{23740,10607},{23832,10608},{24477,10608},{23422,10611},{24811,10610},{27204,10608},{31829,0},{25647,10608},{27781,10609},{26149,10612},{31841,0},{31617,10617},{20877,10616},{31854,6646},{31859,0},{31862,0},{31866,10370},{29460,10621},{31503,10623},{31847,0},{31023,10625},{31874,0},{26356,10629},{31880,0},{31884,6972},{31895,0},{31892,0},{31901,0},{31846,10264},{27714,10633},{31907,0},{31904,0},{27723,10635},{31910,0},{31911,10593},{31917,6982},{31923,6985},{31922,0},{31384,10624},{31931,0},{31932,6990},{31937,0},{31946,0},{21774,10649},{31955,0},{31958,0},{28146,10656},{31967,0},{31961,0},{31973,0},{31976,0},{31979,0},{18198,10660},{31988,0},{31985,0},{31989,7225},{19936,10662},{32003,0},{32000,0},{31137,10665},{32006,0},{30792,10669},{31383,10671},{32012,0},{32018,0},{21696,10674},{31650,10673},{31896,10675},{32039,0},{27715,10677},{32036,0},{27724,10680},{31882,10668},{21705,10685},{21717,10686},{32066,0},{21726,10690},{31402,10670},{31569,10691},{32048,0},{32081,0},{32085,8528},{32082,8241},{28473,10697},{32090,0},{32097,8939},{31978,10700},{32103,10658},{32108,0},{31992,10704},{20898,10703},{2292,10706},{775,10705},{29646,10707},{32129,0},{31881,10710},{32135,0},{31401,10713},{32138,0},{556,10715},{2286,10706},{31407,10714},{32150,0},{31642,10709},{32153,0},{31791,10714},{32154,10719},{32160,8915},{32162,0},{32165,0},{32168,0},{2271,10706},{499,10723},{748,10724},{2301,10706},{778,10726},{32183,0},{32159,0},{32186,0},{31942,10728},{4653,10706},{32190,7026},{25044,10732},
{32191,7026},{25353,10731},{28479,10734},{28476,10733},{27126,10735},{32213,0},{32210,0},{32214,6216},{32215,6216},{32222,0},{32219,0},{32226,10419},{32225,0},{31764,10744},{29248,10743},{32231,0},{32228,0},{31155,10746},{32238,10343},{32237,0},{32243,0},{31545,10748},{32259,8792},{31779,10752},{32255,0},{32252,0},{32248,10558},{32260,8914},{32043,10754},{32247,10558},{32270,0},{26373,10758},{32273,0},{32287,10602},{32285,0},{32286,10602},{32290,10471},{32294,0},{32289,10471},{32295,7003},{31941,10768},{32309,0},{32296,6706},{32312,0},{32315,0},{23832,10773},{23740,10774},{24477,10773},{23422,10772},{28162,10775},{32327,0},{25822,10776},{25647,10773},{24811,10777},{27204,10773},{32342,0},{20907,10782},{32124,10783},{32355,6974},{32354,0},{32367,10380},{32360,0},{29466,10788},{32363,0},{32028,10792},{32372,0},{32373,10385},{31551,10793},{32384,0},{28413,10787},{32390,0},{32394,6679},{32387,0},{32049,10797},{32400,8914},{32405,0},{32408,0},{32414,0},{32277,10803},{32402,0},{32421,6695},{32426,0},{31915,10794},{32430,6705},{32435,0},{32438,0},{32441,0},{32448,6749},{22236,10817},{32447,0},{32462,0},{32465,0},{32456,0},{32466,10824},{28485,10823},{32477,0},{32483,0},{32467,10824},{19458,10828},{32489,0},{32492,0},{19054,10829},{32493,6977},{32507,0},{32501,0},{31653,10834},{28414,10836},{32519,0},{32514,10344},{32515,10344},{32513,0},{32522,0},{31914,10841},{21711,10844},{31677,10843},{32528,0},{32538,10845},{32415,10848},{32543,0},{21738,10853},{32398,10837},{21744,10856},{32567,0},{21027,10858},{31927,10840},{32076,10859},{21798,10860},{32585,0},{32589,8530},{32595,8246},{32603,0},{32600,0},{32604,8941},{28506,10869},{32615,0},{32614,5895},{32496,10873},{19998,10872},{775,10875},{2292,10874},{31660,10878},{32639,0},{29652,10876},{32636,0},{32265,10880},{32648,0},{32397,10883},{32645,0},{31926,10884},{32657,0},{2286,10874},{31791,10880},{556,10886},{32661,10718},{26748,10882},{32672,0},{2271,10874},{499,10892},{32681,0},{2301,10874},{748,10894},{32690,0},{32693,0},{32446,10898},{20173,10896},{32696,0},{778,10899},{32700,7042},{4653,10874},{32701,7042},{25365,10901},{25053,10902},{32709,10904},{27135,10905},{28515,10906},{17685,10907},{32726,0},{32732,0},{32729,0},{32733,10594},{32738,0},{32046,10914},{32741,0},{29254,10915},{32747,0},{32735,0},{31785,10916},{32753,0},{32052,10916},{26382,10918},{32760,10343},{32759,0},{32061,10922},{32765,0},{32776,10725},{32771,0},{32553,10914},{32774,0},{31911,10916},{32783,0},{26379,10913},{32775,10725},{32791,10766},{32789,0},{32790,10766},{32800,10646},{32798,0},{32799,10646},{21057,10934},{32810,0},{32818,10937},{32586,10938},{32825,0},{32822,0},{23832,10942},{32817,10937},{23740,10943},{23422,10944},{24477,10942},{25647,10942},{32837,0},{24811,10946},{27204,10942},{25822,10947},{29068,10945},{32846,0},{32343,10949},{32631,10951},{20010,10950},{32858,0},{32859,6682},{32870,0},{29472,10957},{32874,10554},{32864,0},{26380,10955},{32667,10960},{31528,10963},{32547,10964},{32888,0},{32538,10960},{32885,0},{32879,0},{32067,10966},{32897,0},{32904,6994},{32910,10520},{29259,10956},{32915,0},{32921,0},{32924,0},{32928,7010},{32937,7011},{32933,0},{32419,10965},{32942,0},{32945,0},{32951,0},{32954,0},{32955,7051},{22248,10986},{32963,0},{32966,0},{32972,0},{32975,0},{32978,0},{32983,10570},{29067,10993},{32982,10530},{32987,0},{32992,10996},{32993,0},{18660,10998},{33005,0},{33002,0},{20950,11001},{33009,7236},{33020,0},{33017,0},{32664,11007},{33026,0},{29260,11004},{33035,0},{33029,0},{32778,11014},{33045,10561},{32550,11012},{33030,8917},{33041,0},{32418,11017},{33050,0},{33062,0},{32017,11019},{33032,0},{20988,11018},{32661,11014},{32148,11021},{32902,11011},{21036,11024},{33083,0},{21048,11025},{21075,11029},{32428,11016},{33101,0},{21174,11032},{33102,8244},{33111,8532},{33114,8944},{33122,0},{33119,0},{33125,0},{28530,11042},{33131,0},{33132,10996},{33137,0},{18214,11045},{21714,11046},{33006,11047},{2292,11048},{775,11049},{29655,11051},{33158,0},{32673,11053},{33164,0},{33177,10928},
{33182,0},{33183,10852},{31636,11058},{33173,0},{32901,11055},{33188,0},{32427,11063},{33184,10852},{2286,11048},{33197,0},{33198,8795},{556,11067},{31669,11069},{33206,0},{32158,11068},{33195,9128},{2301,11048},{33212,0},{2271,11048},{499,11071},{748,11073},{4653,11048},{33224,0},{33227,0},{778,11077},{33229,6433},{19234,11074},{33228,6433},{25047,11078},{25374,11079},{27144,11080},{29511,11081},{31713,11083},{28539,11084},{33260,0},{18213,11087},{33266,0},{33269,0},{33272,0},{33276,10760},{33275,0},{33285,11056},{33288,11094},{32907,11096},{33281,0},{33278,0},{33299,0},{33293,0},{32916,11098},{33302,0},{29266,11093},{33308,0},{32562,11103},{33315,9566},{33314,0},{33320,0},{33326,0},{33317,0},{33321,9027},{33328,10895},{33327,10895},{32553,11101},{32301,11111},{33341,0},{33332,0},{27084,11100},{33338,0},{28455,11110},{32907,11101},{33344,0},{33352,10935},{33350,0},{29280,11112},{33355,10814},{33351,10935},{33359,0},{33354,10814},{20241,11120},{33367,11124},{23832,11123},{33377,0},{24477,11123},{23422,11126},{33366,11124},{23740,11127},{24811,11128},{25647,11123},{27204,11123},{33389,0},{33392,0},{28882,11129},{25822,11131},{33401,0},{33150,11136},{21720,11135},{33414,6698},{33413,0},{33423,11101},{33422,0},{29481,11142},{33429,10722},{33419,0},{33069,11149},{33438,11145},{33432,10845},{33446,0},{27085,11147},{33455,0},{32571,11152},{33452,0},{33465,9478},{33459,6717},{33482,0},{29281,11164},{28456,11162},{33491,0},{33476,0},{33479,0},{29940,11148},{33500,0},{32926,11150},{33512,0},{33501,6736},{33507,6738},{33518,0},{33519,6748},{33524,0},{33527,0},{33497,0},{33533,0},{21192,11178},{33542,0},{33539,0},{33545,0},{33554,0},{33549,10736},{33557,0},{33550,10779},{29070,11186},{33565,11189},{33564,11189},{19470,11190},{33578,0},{33575,0},{20977,11192},{33579,7399},{33066,11199},{33587,0},{33192,11196},{33593,0},{33596,0},{33605,0},{29941,11203},{33614,0},{33602,0},{33025,11202},{33468,11205},{32925,11207},{33620,0},{33483,11205},{33626,0},{22212,11209},{32187,11215},{33650,0},{33630,10718},{33635,0},{33638,0},{33472,11200},{33156,11217},{22224,11220},{33656,0},{22227,11221},{22230,11223},{20280,11225},{32935,11206},{33681,8250},{33686,0},{18579,11228},{33690,8531},{33685,6193},{24075,11228},{33696,8950},{33701,0},{33702,9509},{33707,0},{33706,11130},{33710,0},{33713,0},{33716,0},{33719,0},{16537,11239},{33582,11241},{22194,11240},{21732,11240},{2292,11242},{775,11243},{33734,0},{29661,11247},{33738,11245},{33462,11249},{33761,0},{33471,11252},{33752,0},{32934,11256},{33764,0},{33767,0},{2286,11242},{33613,11244},{556,11259},{32164,11262},{32638,11260},{33495,11263},{33792,11263},{29499,11253},{33797,0},{33163,11266},{499,11269},{2271,11242},{748,11267},{2301,11242},{4653,11242},{778,11270},{33815,0},{33818,0},{25056,11273},{33827,0},{24069,11274},{25368,11276},{33833,0},{33836,0},{27165,11279},{33840,10778},{28533,11281},{33846,11187},{29298,11284},{16536,11287},{33866,0},{33869,0},{33872,0},{33875,0},{33879,10931},{33878,0},{33890,0},{33753,11294},{33887,0},{33881,0},{33873,6710},{29286,11298},{29275,11295},{33893,0},{33899,0},{33914,0},{33905,0},{33078,11303},{33906,11258},{33919,11072},{33915,10023},{33751,11296},{33918,11072},{33929,0},{33923,0},{33926,0},{33935,0},{33917,0},{30912,11313},{29955,11307},{30435,11308},{33941,0},{33953,0},{33949,10982},{33947,0},{33943,11121},{33956,0},{33942,11121},{33948,10936},{33958,7270},{33957,7270},{23422,11322},{33974,0},{23740,11325},{23832,11323},{24477,11326},{26898,11323},{26898,11326},{33978,8045},{24477,11323},{33989,0},{24811,11328},{24135,11323},{26149,11330},{33998,0},{33995,0},{34001,0},{34002,11134},{22203,11336},{33744,11335},{22449,11337},{34016,0},{34017,7252},{34025,0},{34029,10893},{33900,11340},{29490,11342},{34040,0},{33771,11347},{34037,0},{34034,0},{33642,11348},{34055,0},{33084,11350},{34047,6734},{34064,0},{34067,0},{34011,7247},{30432,11346},{34070,0},{29956,11358},{33657,11357},{30436,11359},{34083,9983},{31428,11355},{30913,11365},{34098,6762},{34094,0},{34103,0},
{34104,6763},{33505,11351},{34110,6768},{34115,0},{34118,0},{34119,11320},{34120,11271},{34124,0},{34091,0},{34088,0},{34127,0},{34136,0},{25377,11376},{34139,0},{34145,0},{34142,0},{34148,0},{34156,10870},{34151,0},{34155,10870},{34160,0},{34163,0},{34162,9574},{17700,11390},{34173,10999},{34181,0},{34178,0},{34188,7255},{34184,0},{20146,11392},{33639,11397},{34202,0},{34199,0},{34196,0},{34217,0},{34056,11403},{34208,0},{30433,11401},{22221,11408},{34060,11405},{33504,11406},{34223,0},{19105,11411},{31429,11410},{34227,11360},{34238,0},{34250,0},{34244,0},{34253,0},{34256,0},{22242,11420},{34259,0},{22239,11423},{34274,0},{22245,11425},{34281,11031},{34286,0},{34289,0},{33514,11407},{24762,11434},{34305,11327},{34308,8155},{34311,9278},{28521,11438},{34317,8699},{34320,11384},{34323,8535},{26868,11443},{34328,0},{34153,11440},{34332,9514},{34335,11388},{34336,11332},{34340,0},{34185,11448},{21039,11449},{775,11450},{2292,11452},{22578,11451},{33783,11455},{29667,11454},{34361,0},{34382,0},{34059,11457},{34374,11459},{2271,11452},{556,11461},{34391,0},{33513,11464},{34388,0},{34400,0},{2286,11465},{2301,11452},{34410,11469},{34089,11469},{33637,11453},{2286,11452},{2301,11465},{2271,11465},{499,11475},{748,11473},{4653,11465},{778,11477},{34436,0},{34290,11479},{34445,0},{4653,11452},{23422,11483},{24681,11482},{34452,8597},{34455,9571},{28218,11486},{34461,9058},{25071,11489},{34466,0},{26871,11490},{34478,0},{34481,0},{34484,0},{34487,0},{15999,11496},{34489,5333},{34496,0},{34493,0},{34502,0},{34499,0},{34497,11115},{34503,11404},{34511,0},{33930,11504},{34508,0},{29503,11503},{34523,0},{34526,0},{34520,0},{33666,11510},{34528,11268},{34535,0},{34381,11502},{34086,11513},{33792,11504},{34544,0},{34553,0},{34559,0},{34547,0},{34554,10184},{34556,0},{34527,11268},{34562,0},{34422,11513},{34567,11321},{34565,0},{34570,11030},{34574,0},{34576,7417},{34566,11321},{34569,10983},{34583,0},{34575,7417},{34589,0},{23422,11531},{34592,0},{23740,11532},{26149,11533},{26149,11534},{24811,11535},{34473,11537},{23740,11536},{24811,11538},{34620,11541},{34631,0},{21072,11545},{34368,11546},{775,11550},{22215,11547},{34649,0},{34644,11070},{34658,0},{29676,11551},{34515,11553},{34239,11557},{34668,7032},{34664,0},{34401,11555},{33672,11560},{34676,0},{34688,0},{34685,0},{34691,0},{34692,7269},{34698,7043},{34263,11565},{30918,11554},{34706,0},{34701,7046},{34108,11558},{34712,0},{34707,10147},{31950,11561},{34713,7276},{34728,7281},{34722,7278},{34726,11478},{34727,0},{34732,11527},{34736,0},{34739,0},{34731,11580},{34745,0},{34746,7071},{34751,0},{34763,0},{34760,0},{34765,11085},{34764,11085},{34769,0},{34774,11285},{34762,9767},{34759,9768},{34773,11237},{34778,0},{16539,11593},{34102,11607},{19216,11594},{34787,0},{34784,0},{34789,11312},{34799,0},{775,11597},{34808,0},{34805,0},{34245,11600},{34788,11312},{30919,11605},{21795,11604},{34678,11603},{34820,0},{34823,0},{34107,11608},{34811,0},{21816,11612},{34833,11226},{31951,11610},{34416,11609},{21825,11617},{34847,0},{21822,11613},{34856,0},{34862,0},{34865,0},{21840,11622},{34878,11526},{21846,11623},{21852,11624},{34883,0},{34887,11035},{34892,0},{34893,7529},{21879,11632},{34905,9768},{34902,9767},{34909,11589},{34913,0},{34922,0},{34908,11638},{34925,0},{34924,11592},{34928,0},{34919,0},{34934,0},{499,11657},{20226,11648},{2292,11646},{34794,11647},{34953,11512},{34947,11650},{34954,11512},{29811,11653},{34964,0},{34404,11652},{34967,0},{34976,0},{34413,11659},{34970,0},{34266,11660},{34677,11662},{34985,0},{34243,11654},{21144,11648},{556,11663},{34997,0},{35000,0},{33634,11664},{556,11669},{748,11667},{2286,11646},{748,11673},{35024,0},{778,11675},{499,11676},{2271,11646},{35036,0},{778,11681},{35042,0},{4653,11646},{2301,11646},{35051,0},{35048,0},{35054,0},{33396,11685},{35063,0},{33858,11690},{35064,11643},{35069,0},{35076,5514},{35077,5514},{35084,0},{35090,0},{35087,0},{35093,0},{35099,0},{34548,11701},{35102,0},{35108,0},{30076,11700},{35079,11645},{35117,0},
{34278,11709},{35123,0},{35126,0},{34410,11701},{35135,0},{35142,11713},{34716,11713},{35130,10527},{31059,11715},{35137,11476},{35149,11670},{35136,11476},{34969,11702},{35153,0},{34440,11717},{35156,0},{35132,0},{35148,11670},{35159,0},{35171,0},{35147,0},{35167,11528},{35163,7062},{35166,11528},{33528,11719},{35164,7291},{35080,11645},{35183,0},{35186,0},{35187,9838},{35190,9839},{34918,11732},{34486,11734},{35207,0},{35204,0},{35198,0},{35213,0},{34632,11738},{35214,11334},{35094,11740},{35217,7033},{22233,11741},{35109,11742},{35229,11462},{35234,0},{35118,11746},{30189,11745},{35246,0},{35243,0},{34848,11749},{35252,0},{34857,11752},{35267,0},{21831,11754},{35273,0},{35276,0},{35261,0},{31446,11747},{34287,11763},{35294,0},{35283,11760},{35288,0},{35280,11759},{35303,0},{35285,0},{35298,10480},{35295,6786},{34720,11750},{33529,11768},{35318,0},{34950,11740},{32457,11762},{35307,6797},{35321,0},{35326,11680},{35324,0},{35327,0},{35331,6818},{35334,6823},{34921,11780},{35342,0},{35339,0},{35345,0},{34626,11784},{35073,11785},{17136,11786},{34341,11787},{35364,11544},{35369,0},{775,11791},{19261,11790},{35381,0},{35387,0},{35390,0},{34842,11794},{35391,11751},{31447,11798},{35410,6035},{35399,0},{35405,0},{35278,11801},{34719,11800},{35415,11804},{18105,11803},{35016,11802},{35418,11431},{35426,0},{35432,0},{32458,11811},{35423,0},{35447,0},{21858,11816},{35310,11804},{35456,0},{35453,0},{35455,11678},{34948,11820},{35465,0},{21870,11819},{21864,11822},{35475,11231},{35478,11726},{21894,11827},{21897,11828},{35494,9632},{35058,11830},{35493,9632},{35501,0},{35504,0},{13588,11835},{748,11873},{35376,11838},{35518,11704},{2292,11840},{30312,11843},{35517,11704},{35534,0},{35004,11842},{35013,11848},{35543,0},{35537,0},{35540,0},{35552,0},{35277,11849},{35555,0},{35436,11849},{35610,11809},{2286,11840},{34249,11855},{34258,11844},{35561,0},{35576,0},{35571,11813},{2286,11853},{2271,11840},{35031,11856},{556,11861},{2301,11840},{2292,11853},{35586,10307},{34876,11845},{35589,11724},{499,11869},{2271,11853},{22822,11868},{35109,11838},{35606,0},{35612,0},{2301,11853},{35615,0},{778,11872},{4653,11840},{35559,1551},{35627,0},{35630,0},{35639,0},{35523,11882},{35651,0},{35645,0},{35657,0},{35268,11886},{30556,11884},{35663,0},{34875,11890},{35666,0},{34422,11886},{34716,11886},{35654,0},{2292,11889},{34884,11894},{35681,0},{35697,10864},{2292,11900},{35687,0},{35690,0},{2271,11889},{35693,0},{32094,11898},{35714,0},{35696,0},{35711,0},{35539,11887},{2286,11900},{35699,0},{35723,0},{35719,11864},{35726,0},{2286,11889},{35732,0},{35718,11864},{2271,11900},{35735,0},{35744,0},{35741,0},{35747,0},{22821,11916},{2301,11889},{35756,0},{35752,11480},{35751,11480},{35765,0},{2301,11900},{4653,11889},{35768,0},{4653,11900},{35508,11925},{35781,6778},{35778,11928},{35795,0},{35792,0},{35673,11932},{35801,0},{35816,0},{30555,11937},{35556,11934},{35810,0},{35807,0},{35442,11940},{35819,0},{35825,0},{35838,6801},{35706,11943},{35715,11944},{35837,0},{35843,0},{35828,0},{35855,0},{35314,11939},{35850,1123},{35844,7069},{35873,0},{35868,465},{35859,10821},{35858,0},{35862,7072},{35879,0},{35905,11717},{35737,11958},{35882,0},{35889,1124},{32967,11951},{35175,11962},{35736,11958},{35893,11743},{35900,0},{35897,0},{35904,11717},{35901,1126},{35892,11699},{35909,0},{35176,11962},{35910,7084},{35915,0},{35918,0},{35919,2323},{35924,0},{35933,0},{35928,7279},{35562,11979},{31962,11978},{35942,0},{31963,11978},{35958,11432},{35954,0},{34998,11985},{35946,790},{35951,0},{35943,11720},{35313,11988},{35281,11987},{35970,7289},{35975,0},{35982,11989},{35979,1085},{35985,2296},{35978,0},{35847,11989},{21222,11999},{35994,6812},{32968,11996},{35993,0},{21228,12004},{35974,11955},{36009,2297},{21882,12000},{36008,0},{36003,6815},{36024,2298},{36041,0},{36038,0},{36035,0},{36027,6816},{36032,0},{36023,0},{36042,1093},{36050,0},{36051,6826},{36056,0},{21255,12021},{36066,2310},{36069,2642},{36072,6837},{36075,3233},{748,12069},{775,12027},{35787,12026},
{36086,0},{36089,0},{35577,12030},{36113,0},{36105,7065},{34996,12034},{35580,12033},{34399,12032},{36116,0},{36119,0},{36138,10653},{35727,12042},{775,12044},{35865,12041},{36129,7075},{35037,12045},{556,12040},{35596,12037},{35575,12028},{36149,0},{556,12048},{499,12047},{775,12056},{556,12053},{556,12054},{748,12051},{36158,0},{499,12057},{499,12061},{36045,12060},{36192,7082},{36201,11742},{748,12066},{36057,12065},{778,12068},{36210,7089},{778,12071},{778,12072},{34882,12109},{36227,0},{36223,11892},{36222,11892},{36108,12077},{36094,12078},{35703,12076},{35595,12079},{36251,0},{36236,0},{775,12080},{36248,0},{33687,12081},{36245,0},{35469,12084},{35473,12091},{33108,12083},{36277,12050},{36266,0},{36269,0},{499,12090},{36281,0},{36260,0},{36263,0},{36288,12007},{36276,12050},{36275,0},{36282,11433},{36294,12102},{36302,0},{36295,12102},{36284,0},{36317,0},{36289,12063},{748,12106},{35647,12107},{36311,0},{778,12111},{36337,7530},{36336,7530},{36340,7304},{36339,7095},{36348,12115},{36353,0},{36362,0},{36359,0},{31183,12118},{36126,12125},{36373,12085},{36365,0},{36380,0},{36093,12123},{32970,12122},{36372,12085},{33540,12127},{36356,0},{36386,0},{36392,0},{36292,12135},{36393,12088},{36403,12006},{36015,12133},{36411,12055},{36394,12132},{36389,0},{36425,0},{36402,12006},{36291,12135},{36416,0},{35472,12140},{36419,0},{36343,11880},{36435,11375},{36445,12020},{36438,7715},{36439,7715},{36443,0},{36444,12020},{36449,0},{36342,11880},{36349,12075},{36454,7301},{36428,0},{36453,7301},{36461,0},{36464,0},{36467,0},{36470,0},{35601,12158},{36482,0},{35598,12159},{36497,0},{36498,12164},{35883,12163},{36485,0},{36503,0},{35599,12159},{36506,0},{36511,11776},{31182,12169},{36527,0},{36297,12172},{36533,0},{36304,12178},{36532,12175},{36513,12164},{35328,12170},{36521,0},{36545,0},{36546,12059},{36551,0},{36303,12178},{36542,0},{36313,12185},{36298,12172},{36560,0},{36568,11920},{36566,0},{36567,11920},{36575,0},{36312,12185},{36581,0},{36584,0},{36593,0},{36594,7609},{36600,6841},{36471,12201},{36614,0},{36608,0},{32479,12203},{32478,12203},{36624,12136},{36620,0},{36623,0},{36641,0},{36632,0},{36148,12202},{36636,12100},{36662,0},{36637,12143},{36552,12221},{36657,12179},{36647,0},{36432,12218},{36648,12214},{36651,12103},{36426,12218},{36677,0},{35757,12224},{36671,0},{36523,12207},{33546,12210},{36324,12230},{36698,0},{23352,12231},{36704,0},{36325,12230},{36652,12150},{36463,12238},{36716,0},{36718,12155},{36822,6478},{36718,12275},{36722,0},{36729,11377},{36723,12205},{36285,12242},{36522,12247},{36730,11377},{36734,0},{36738,12211},{36735,12176},{31314,12248},{36755,0},{36752,0},{33547,12249},{36779,0},{36768,12222},{36764,0},{36776,0},{36761,0},{36782,0},{36789,12228},{36790,12228},{36788,0},{36794,0},{34752,12250},{36797,0},{36760,12254},{36800,0},{21259,12268},{36806,0},{36807,12235},{36815,0},{36487,12240},{36597,12273},{36830,0},{36486,12277},{36040,12279},{36839,0},{36842,0},{36836,0},{36854,0},{36857,0},{36845,0},{33118,12286},{36861,12252},{36869,0},{34590,12288},{36860,0},{36879,12295},{36870,12261},{36875,0},{36882,12292},{36893,0},{36890,0},{36561,12298},{36895,12187},{36902,0},{36793,12291},{36909,12267},{21258,12305},{36914,0},{36920,0},{36814,12306},{36926,0},{36925,11539},{36929,0},{36331,12336},{36935,0},{36849,12315},{36186,12314},{36936,12282},{36174,12313},{36765,12317},{36948,12179},{36678,12318},{33246,12323},{36968,0},{36962,0},{36442,12320},{36937,12282},{36897,12326},{36977,0},{36992,0},{36984,12329},{36994,12325},{37004,0},{37007,0},{36921,12337},{36983,0},{36330,12336},{37017,11492},{37001,0},{36627,12343},{37037,0},{37034,0},{37043,0},{37040,0},{37046,0},{36682,12350},{37049,0},{36868,12345},{36687,12352},{37055,0},{36570,12353},{37052,0},{36981,12354},{36993,12357},{37067,0},{36906,12354},{37033,12319},{37079,0},{36699,12358},{37027,12073},{21900,12362},{37026,12073},{37070,0},{37097,0},{37091,0},{37100,0},{37106,0},{37116,12371},{36957,12370},{36963,12369},{37128,11633},{37119,12375},
{37124,0},{36681,12380},{37145,0},{37130,0},{37139,0},{37148,0},{37163,0},{36811,12387},{37157,0},{37158,12333},{37084,12388},{36433,12368},{37164,12361},{37152,12297},{37172,0},{37169,0},{36771,12395},{37196,0},{34756,12396},{37193,0},{37200,12377},{37199,0},{37068,12401},{37190,0},{37212,11583},{37209,12405},{37208,0},{37080,12406},{37230,12401},{37226,0},{36810,12407},{36432,12395},{37229,0},{37238,0},{37241,0},{37245,12392},{37249,12195},{36585,12416},{37253,0},{37259,0},{37134,12420},{36903,12418},{34755,12424},{37271,0},{37258,12192},{36996,12422},{37265,0},{37278,12329},{37277,0},{37280,0},{37286,0},{37287,12338},{37293,12411},{37298,0},{35193,12434},{37312,12436},{35053,12434},{37310,0},{37316,0},{37295,0},{36972,12439},{37326,12383},{37325,0},{37320,12192},{37328,0},{37332,12427},{37338,12447},{37331,0},{37337,0},{37346,0},{36891,12450},{37353,12430},{33850,12441},{37361,0},{37335,12433},{37362,12196},{37367,0},{37370,0},{37311,12458},{37373,0},{36711,12459},{37385,0},{37394,0},{33849,12463},{37388,0},{37400,0},{37227,12469},{37065,12465},{37403,0},{37230,12470},{37415,0},{37416,12411},{37427,0},{37422,12435},{36655,12476},{37421,0},{36907,12461},{35199,12477},{37439,0},{36457,12481},{37445,0},{37152,12482},{37454,0},{37347,12485},{36906,12482},{37449,12468},{37458,12338},{37466,0},{37463,0},{37472,0},{37242,12482},{37473,12329},{37478,0},{37486,11832},{37493,0},{37487,0},{37496,0},{37502,0},{36456,12501},{37508,0},{34771,12506},{37517,0},{37512,12489},{34167,12503},{37506,12410},{37520,0},{37523,0},{37524,12509},{37535,0},{37530,12391},{37482,12513},{37543,12498},{35346,12515},{37548,11781},{37542,12517},{35347,12515},{37559,0},{37344,12520},{37278,12520},{37564,12194},{37565,0},{37574,0},{37566,12364},{37571,0},{37581,12393},{34770,12526},{37577,0},{37536,12529},{37595,0},{37021,12524},{37598,0},{37601,0},{37604,0},{37607,0},{37616,0},{37420,12540},{36892,12539},{37584,12544},{37063,12543},{37623,12236},{37020,12542},{37590,12547},{37635,12406},{37640,0},{35623,12548},{37488,12540},{37652,0},{37102,12548},{37434,12549},{35631,12552},{35634,12553},{37356,12555},{37670,0},{37673,0},{37287,12555},{37676,0},{37679,0},{37685,0},{37682,0},{37123,12562},{37696,12367},{37700,0},{37704,11874},{37678,11736},{37715,0},{37609,12571},{37712,0},{37718,0},{37719,12493},{35487,12574},{37727,0},{37737,12564},{37731,11689},{37182,12578},{29682,12580},{37479,12576},{37742,0},{37751,0},{35488,12574},{37753,12570},{37760,0},{37752,12587},{37608,12585},{37794,11924},{29683,12597},{37482,12588},{37772,0},{37689,12588},{37767,12576},{37398,12591},{37635,12588},{37781,0},{37372,12594},{37778,0},{37651,12592},{37787,0},{37784,0},{37788,12573},{37802,0},{37789,12556},{37808,0},{37811,0},{37818,12563},{37015,12610},{35769,12607},{37829,0},{37826,0},{37081,12611},{37701,12614},{37845,12613},{35349,12612},{37848,9938},{37440,12617},{37812,12605},{37856,0},{37817,0},{37814,0},{37862,0},{37857,12585},{37803,12619},{37871,0},{37416,12627},{37881,12451},{37746,12626},{37744,12625},{37874,0},{37887,12613},{21273,12628},{37890,12551},{37895,0},{37899,12551},{37877,0},{37904,0},{37905,12582},{37889,0},{37898,0},{37886,0},{37911,12636},{37901,0},{37917,12536},{37798,12631},{37912,12636},{37707,12641},{37937,0},{37225,12643},{29320,12646},{37934,0},{37928,0},{37941,12551},{37946,0},{37955,0},{37743,12652},{29319,12646},{37923,12549},{37846,12654},{37943,0},{37976,0},{21274,12657},{37982,0},{37985,0},{37797,12650},{37991,0},{37947,12667},{37997,0},{37999,12632},{37845,12667},{37992,12650},{38004,12460},{37890,12667},{38009,0},{21909,12670},{38021,0},{37662,12671},{38018,0},{37998,12656},{38027,0},{37369,12674},{38036,0},{37863,12679},{38045,0},{38040,12664},{37497,12682},{38051,0},{38060,0},{37234,12688},{38061,12599},{21282,12684},{38057,0},{21283,12684},{38075,0},{38069,0},{38087,0},{38076,9842},{37914,12696},{38093,0},{37861,12696},{38108,0},{38129,0},{38070,12703},{38120,0},{38112,12655},{38117,0},{38123,0},{38124,12653},{38133,12676},{38141,0},
{38035,12713},{21291,12715},{38130,12709},{21292,12715},{38034,12713},{38150,0},{37554,12717},{38082,12720},{38174,0},{38157,12693},{38131,12718},{21915,12723},{37840,12721},{20530,12722},{38175,12659},{38152,12518},{20529,12722},{38094,12726},{38189,0},{38186,0},{38195,0},{38201,0},{38136,12735},{38219,0},{38221,12738},{38210,0},{38202,12712},{38211,12718},{21294,12742},{38216,0},{37597,12741},{38234,0},{37759,12736},{38231,0},{38228,0},{21306,12746},{38213,0},{38204,0},{38218,12714},{37611,12748},{37920,12752},{38255,0},{38142,12750},{38249,0},{37803,12752},{38264,0},{38220,12756},{38267,0},{21295,12761},{38274,12745},{21918,12760},{38288,0},{38241,12763},{38136,12758},{37986,12764},{38295,12716},{36817,12766},{38303,0},{38310,12727},{38307,12757},{38316,12768},{38315,0},{21924,12774},{38300,0},{38321,0},{38191,12777},{38333,0},{38327,0},{38286,12775},{38339,0},{38340,12745},{38345,0},{38272,12769},{38348,0},{38351,0},{37866,12788},{38097,12784},{38278,12786},{38363,0},{36816,12790},{38358,12759},{38328,12791},{38369,0},{38334,12794},{38378,0},{38387,0},{38190,12793},{38335,12794},{38388,12745},{38394,12677},{38399,0},{21922,12801},{38411,0},{37801,12802},{38412,39},{38415,12791},{38420,0},{38441,0},{38432,0},{21921,12801},{37984,12803},{38447,0},{38433,12814},{38439,12814},{38346,12817},{38413,23},{38455,12789},{38040,12819},{38468,0},{38461,12807},{288,12821},{38465,0},{38454,12809},{37023,12823},{38472,12825},{38480,0},{38103,12819},{38421,12820},{38492,0},{38493,12832},{38495,0},{38531,0},{38501,0},{38510,0},{38433,12835},{38513,0},{38504,0},{36931,12840},{38514,107},{38519,0},{38525,0},{38532,12827},{22272,12842},{38529,12662},{38482,12844},{38535,12825},{38509,107},{38540,0},{38544,12677},{38547,12812},{38100,12853},{38550,12852},{38563,7310},{38523,12856},{38567,0},{38202,12848},{38562,7104},{38579,0},{38582,0},{38487,12849},{38585,0},{38584,2367},{38590,12821},{38595,12753},{38595,12734},{38600,0},{37936,12867},{38606,0},{37987,12872},{38608,12859},{38598,12857},{38609,0},{38621,0},{38448,12875},{38538,12879},{38642,0},{38645,0},{38646,12856},{38575,12883},{38613,12884},{38574,12883},{38663,0},{38657,0},{38664,12874},{22275,12889},{38056,12890},{38658,12849},{38675,0},{38355,12892},{38172,12893},{38685,3249},{38684,0},{38690,0},{38687,0},{38656,12897},{38649,12899},{38694,12856},{38702,0},{38705,0},{20551,12901},{38688,1130},{38635,12896},{38717,0},{38720,0},{38723,0},{38658,12908},{38730,2362},{7101,12909},{38736,12858},{15021,12910},{38750,0},{20550,12915},{38753,0},{9748,12910},{38734,5007},{38673,12918},{38424,12919},{38136,12920},{38391,12920},{38757,12758},{38707,12925},{38733,12921},{38774,0},{38328,12919},{38771,0},{38775,12902},{38780,0},{22470,12927},{38784,7490},{38631,12929},{38786,0},{38784,7106},{38798,0},{38801,0},{38182,12934},{38807,0},{38212,12936},{38813,0},{38816,0},{14436,12941},{38817,3249},{38811,5705},{38822,0},{38837,0},{38846,0},{38840,0},{38553,12950},{38855,0},{38856,12828},{38862,5504},{38628,12953},{15975,12955},{38876,0},{38854,12942},{18195,12954},{38873,0},{38870,0},{38361,12959},{22716,12960},{38883,7314},{38886,12939},{17116,12954},{38891,0},{38889,12866},{38826,12964},{38889,12814},{38254,12965},{38900,0},{38904,12943},{38906,0},{38924,0},{38778,12972},{38913,5504},{38907,12970},{38919,12911},{38915,0},{38931,3249},{38933,0},{38912,0},{38610,12979},{38942,0},{38943,12768},{38944,12953},{38951,0},{38948,0},{18645,12984},{38943,12953},{38772,12986},{38957,0},{38966,0},{38975,0},{38961,12791},{38969,0},{38972,0},{38472,12979},{38981,0},{7086,12994},{38983,12930},{18196,12995},{38990,0},{38739,12997},{38901,12998},{39009,13000},{38586,13001},{38999,0},{39008,0},{38950,13003},{39014,0},{38838,13005},{38377,13008},{39030,6485},{39027,13006},{21324,12999},{38443,13011},{39036,12910},{39041,0},{39044,0},{38766,13016},{38659,13017},{38500,13020},{39057,12829},{21939,13021},{39066,12970},{39077,0},{22599,13023},{39071,0},{39021,13024},{39079,13019},{39081,12992},{39089,0},{39057,13026},
{39095,0},{38796,13033},{21325,13021},{39104,0},{39106,13018},{39109,13037},{39114,7533},{39114,13023},{39119,0},{22719,13042},{39084,13040},{39125,0},{39132,7716},{38709,13037},{39134,0},{39091,13047},{39129,13040},{39137,0},{39120,13006},{39096,13048},{39127,7573},{39133,7716},{39149,0},{39153,12914},{39158,0},{39161,0},{39164,0},{39167,0},{39129,13056},{39173,0},{39135,13056},{39182,0},{23511,13063},{39156,8463},{39186,7682},{39192,13028},{39198,13043},{38794,13067},{39191,0},{39157,8536},{39215,0},{39216,8536},{39222,13075},{39174,13076},{38749,13071},{39138,13077},{39236,0},{39248,0},{39245,0},{39251,0},{39252,5705},{39254,0},{39257,0},{23512,13086},{39220,8144},{38832,13088},{39269,0},{38781,13088},{39270,13059},{39275,0},{39277,13061},{39183,13092},{39279,13079},{39291,13065},{39296,0},{39297,5504},{39298,12978},{39147,13100},{39311,0},{24081,13104},{39219,13104},{39317,0},{39315,7106},{39320,0},{39282,13107},{39326,0},{26499,13108},{39327,7106},{39335,0},{38862,13112},{39341,0},{39344,0},{39347,0},{38925,13116},{39353,0},{39356,0},{39357,12947},{39362,0},{39354,8027},{39363,13079},{26877,13123},{39366,13110},{39374,0},{39378,13056},{39383,0},{39345,13129},{26500,13123},{39395,0},{39396,13133},{21319,13134},{38928,13135},{39410,0},{39413,0},{39419,0},{39416,0},{20554,13131},{39414,9287},{39423,7108},{39425,0},{39384,13142},{39151,13141},{39431,0},{20553,13145},{39440,0},{39442,13109},{39447,13096},{22279,13148},{39450,13095},{39461,0},{39456,9412},{39464,0},{39467,0},{21939,13156},{39046,13157},{39482,0},{39189,13161},{39240,13161},{23511,13161},{39488,0},{39495,13151},{39494,0},{39503,0},{39493,13125},{39504,9699},{39507,13021},{39512,0},{39429,13171},{39487,9412},{21327,13172},{39527,0},{39521,0},{39524,0},{39528,9412},{39375,13178},{39533,0},{39537,13162},{39540,9897},{39531,7890},{39548,0},{39552,13158},{28906,13180},{39304,13177},{39554,0},{39560,0},{39489,13189},{39561,13188},{19468,13186},{39572,0},{39573,13166},{39369,13192},{39460,13191},{26877,13192},{39581,0},{39584,0},{39587,0},{23511,13192},{39549,13196},{39593,0},{19467,13201},{39608,0},{39611,0},{39613,13206},{39420,13205},{39624,9897},{39540,13208},{28905,13208},{39614,0},{39543,13210},{39619,13204},{39630,13168},{39636,13063},{39641,0},{39642,7573},{39644,0},{39625,9941},{39650,0},{39654,13205},{39651,13140},{39654,13192},{39660,13217},{39657,10066},{39668,0},{39671,0},{39665,0},{39618,13224},{39680,0},{39621,13218},{39627,13218},{39686,0},{39692,0},{39693,7533},{39694,13068},{39678,10222},{39679,10106},{21330,13233},{39702,13207},{39702,13209},{39708,13220},{39705,13205},{39713,0},{39716,0},{29964,13240},{39633,13239},{39729,10106},{39735,13205},{39732,13205},{39738,13229},{39707,0},{39737,0},{39734,0},{39069,13247},{39746,0},{39710,0},{39591,13249},{39758,0},{39764,0},{39761,0},{39770,0},{39767,0},{20563,13252},{39675,13257},{30786,13258},{39780,13241},{39779,0},{39785,0},{39788,0},{39791,0},{39792,8144},{39806,0},{39801,13265},{39794,0},{39798,13152},{39606,13270},{39813,13199},{39815,0},{20562,13272},{39681,13275},{39822,13273},{39828,13241},{39839,0},{39832,13242},{39833,0},{39842,0},{39849,13284},{39834,13276},{39857,0},{39861,13289},{39807,13286},{24081,13288},{39433,13290},{39865,13102},{39881,0},{39888,13278},{39884,0},{39887,0},{39894,13297},{39726,13299},{39894,13282},{39882,13301},{39908,0},{39219,13303},{39920,0},{39556,13304},{39208,13305},{39926,0},{39895,10262},{20565,13309},{39843,13311},{39932,0},{39936,13281},{39941,0},{39947,0},{39944,0},{39939,10487},{39950,0},{39956,0},{39540,13317},{39965,0},{39960,13307},{39974,0},{39978,13300},{19480,13324},{39983,0},{39977,0},{31320,13328},{39987,10312},{39995,0},{28905,13332},{39957,13333},{40004,0},{39595,13332},{39873,13335},{39813,13335},{19479,13337},{40018,13314},{40023,13340},{40016,0},{40028,0},{40031,0},{31719,13344},{40037,0},{40008,13348},{39262,13346},{40047,13322},{40050,13199},{40052,0},{40055,0},{30318,13354},{40059,13354},{40058,0},{40056,13355},{40074,13347},{40057,10487},
{40077,13360},{40083,13360},{40088,0},{40085,0},{21333,13364},{40095,13353},{40100,0},{40101,10440},{40106,0},{39754,13366},{39697,13369},{40113,13361},{40116,13307},{40118,0},{40125,13330},{40068,13377},{40130,0},{40136,0},{40137,13344},{40071,13379},{40131,10066},{40083,13380},{40113,13381},{40146,13381},{40148,0},{40149,13320},{40151,0},{19483,13385},{40161,13388},{39750,13388},{40158,13388},{40160,0},{39750,13387},{40169,0},{40172,0},{39678,13387},{40175,0},{40179,13392},{40182,13380},{40184,0},{40190,0},{40196,0},{40200,13387},{40197,13250},{40205,0},{40206,13328},{31842,13404},{40194,13405},{40211,0},{40195,10614},{40220,0},{40229,0},{40236,10573},{40244,0},{40167,13415},{40248,13419},{40256,0},{40253,0},{40221,13421},{40271,0},{40275,13424},{40281,13428},{40111,13426},{39970,13429},{40203,13430},{40239,13430},{40261,13431},{35925,13432},{40296,10999},{40301,0},{40296,10781},{40224,13434},{40296,11447},{40310,0},{40307,0},{40313,0},{40317,11134},{40326,13440},{40328,0},{40332,13445},{40320,13446},{40346,0},{40350,13432},{40314,13450},{40317,13450},{40323,13450},{40353,13442},{40341,13450},{40329,13450},{32344,13453},{33265,13455},{40378,11544},{32725,13456},{40364,0},{33865,13458},{40377,11787},{40377,11544},{40373,0},{40382,0},{11361,13464},{40388,0},{40371,13463},{35638,13466},{35215,13467},{40407,13461},{40410,13395},{40410,13410},{40413,13465},{40371,13469},{40410,13422},{40410,13452},{40410,13411},{40410,13397},{40410,13200},{40410,13292},{40410,13373},{40410,13374},{40410,13215},{40410,13384},{40410,13159},{40410,13363},{40410,13130},{40410,13070},{40410,12949},{40410,12904},{40410,12800},{40410,13468},{40410,12864},{40410,12847},{40410,12732},{40347,13470},{39961,13483},{40425,13472},{40437,13463},{40144,13476},{40141,13477},{40303,13480},{40439,0},{40312,13481},{40045,13482},{39475,13484},{39256,13493},{40321,13501},{38755,13495},{38497,13499},{39925,13486},{39964,13485},{39514,13490},{39748,13488},{39922,13489},{40081,13487},{39598,13491},{39043,13494},{39343,13492},{38398,13496},{40381,13497},{38638,13498},{38296,13500},{40586,0},{40434,13503},{35511,13503},{40509,13465},{40518,13505},{40511,0},{40514,0},{40410,13508},{40529,0},{40530,13502},{40535,0},{40580,0},{40544,0},{40547,0},{40550,0},{40553,0},{40563,13519},{40538,0},{40574,0},{40571,0},{40559,0},{40562,0},{40583,0},{40556,0},{40568,0},{40577,0},{40542,13515},{40584,13527},{40533,13521},{40565,0},{40598,0},{40595,0},{40592,0},{40599,13507},{40620,13513},{40410,13535},{40410,13534},{40390,13536},{40554,13544},{40560,13543},{40641,13546},{40644,13514},{40620,13507},{40611,13513},{40662,13520},{40629,13522},{40632,13519},{40644,13547},{40638,13518},{40668,13557},{40410,13560},{40410,13561},{40410,13559},{40686,13563},{40384,13564},{40396,13565},{40611,13566},{40635,13567},{40704,13522},{40710,13569},{40713,13572},{40719,13555},{40725,13574},{40731,13576},{40387,13581},{40420,13579},{40423,13580},{40752,13583},{40755,13538},{40758,13587},{40763,0},{40766,0},{40776,13578},{40773,13590},{40806,13601},{40787,0},{40781,0},{40746,13594},{40794,13511},{40796,0},{40818,13605},{40812,13596},{40811,0},{40823,0},{40782,13604},{40815,13566},{40830,13597},{40617,13609},{40827,13603},{40827,13523},{40827,13611},{40827,13512},{40827,13599},{40827,13600},{40827,13524},{40827,13541},{40827,13542},{40827,13551},{40842,13584},{40848,13615},{40857,13615},{40881,13613},{40845,13609},{40863,13615},{40860,13615},{40866,13615},{40869,13615},{40872,13615},{40875,13615},{40851,13615},{40878,13615},{40854,13615},{40587,13629},{40886,0},{40889,0},{40916,0},{40893,13612},{40887,13608},{40887,13525},{40651,12732},{40944,13629},{40651,13649},{40887,13549},{40901,0},{40898,0},{40674,13629},{40904,0},{40907,0},{40887,12716},{40910,0},{40887,13553},{40913,0},{40887,13517},{40914,12732},{40887,13550},{40887,13516},{40887,13552},{40919,0},{40922,0},{40539,13667},{40925,0},{40749,13642},{40890,13644},{40929,13516},{40937,0},{40647,13643},{40929,13542},{40940,0},{40572,13643},{40955,0},
{40943,0},{40929,13551},{40611,13652},{40964,0},{40929,13517},{38196,13643},{40839,13653},{40767,13655},{40617,13643},{40929,13525},{40620,13656},{40929,13520},{40974,13507},{40929,13553},{40979,0},{40985,0},{40980,13505},{40991,0},{40988,0},{40656,13643},{40994,0},{40929,13529},{40569,13643},{40674,13643},{40536,13643},{40997,0},{40623,13643},{40998,13506},{41010,13671},{41006,0},{40749,13673},{40752,13678},{40530,13679},{41120,0},{41055,13682},{41045,0},{41075,0},{41069,0},{41087,0},{41082,13605},{41088,13697},{41097,13594},{40506,13669},{41112,13566},{41127,13671},{41165,0},{41151,13676},{41135,0},{41136,13676},{41148,13676},{41142,13676},{41157,13682},{41107,13703},{41193,13723},{41107,13732},{41140,13686},{41202,13723},{41140,13735},{41171,0},{41169,13708},{41077,13705},{41217,13723},{41077,13740},{41025,13723},{41031,13723},{41175,13707},{41169,13552},{41052,13723},{41040,13723},{41061,13723},{41169,13517},{41169,13558},{41068,13657},{41253,13723},{41068,13752},{41070,13723},{41064,13723},{41016,13723},{41076,13723},{41169,13715},{41181,13707},{41169,13643},{41187,13707},{41184,13707},{41169,13726},{41169,13549},{41100,13723},{41169,13724},{41124,13723},{41017,13701},{41304,13723},{41017,13769},{41208,13644},{41211,13643},{41216,0},{41022,13737},{40950,13737},{41228,0},{41231,0},{41234,0},{41049,13737},{41211,13724},{41031,13737},{41240,0},{41243,0},{41142,13737},{41178,13737},{41136,13737},{41237,0},{41249,0},{41252,0},{41061,13737},{41246,0},{41261,0},{41267,0},{41264,0},{41145,13737},{41211,13708},{41270,0},{41273,0},{41276,0},{40887,13737},{41279,0},{41288,0},{41285,0},{41282,0},{41151,13737},{41294,0},{41291,0},{41094,13737},{41303,0},{41297,0},{41300,0},{41010,13807},{41376,13794},{41157,13802},{41315,0},{41316,13644},{41166,13811},{40536,13772},{41324,0},{41327,0},{41316,13512},{41130,13778},{41345,0},{41339,0},{41342,0},{41360,0},{41354,0},{41357,0},{41372,0},{41313,13741},{41313,13770},{41390,0},{41387,0},{41316,13529},{41313,13525},{41316,13525},{41316,13523},{40752,13778},{40812,13799},{41313,13733},{41316,13736},{41402,0},{41154,13801},{41160,13809},{41417,0},{41409,13802},{41426,0},{41496,13797},{41535,13806},{41531,0},{41538,13730},{41454,13815},{41523,13542},{41448,120},{41441,0},{41523,13541},{41453,0},{41450,0},{41328,13819},{41460,13777},{41445,13770},{41463,13771},{41445,13741},{41468,0},{41349,13824},{41445,13733},{41475,13787},{41346,13823},{41478,13788},{41481,13789},{41484,13791},{41379,13829},{41492,0},{41439,13815},{41495,0},{41499,13798},{40569,13815},{41445,13541},{41511,13771},{41514,13678},{41517,13693},{41522,0},{41523,13551},{41526,13804},{41430,13847},{41438,0},{41574,120},{41437,13848},{41664,13771},{41437,13889},{41550,13771},{41654,0},{41558,0},{41561,0},{41564,0},{41313,13886},{41530,13855},{41691,13771},{41530,13898},{41553,13815},{41570,0},{41549,0},{41579,0},{41585,0},{41582,0},{41588,0},{41591,0},{41592,13736},{41208,13850},{41603,0},{41597,0},{41600,0},{41606,0},{41615,0},{41612,0},{41609,0},{41618,0},{41624,0},{41630,0},{41546,0},{41631,13772},{41445,13857},{41634,13772},{41639,0},{41633,0},{41642,0},{41645,0},{41651,0},{41657,0},{41675,0},{41436,13900},{41445,13929},{41690,0},{41709,13815},{41313,13929},{41715,13815},{41729,0},{41726,0},{41730,13815},{41313,13913},{41700,13911},{41742,13815},{41313,13916},{41745,13815},{41313,13902},{41700,13741},{41313,13917},{41700,13770},{41313,13903},{41700,13733},{41313,13911},{41700,13919},{41700,13920},{41700,13905},{41313,13910},{41445,13902},{41757,13815},{41313,13919},{41748,13815},{41751,13815},{41760,13815},{41313,13905},{41313,13914},{41733,13815},{41765,0},{41771,0},{41768,0},{41313,13926},{41682,13893},{41779,13915},{41910,13771},{41779,13971},{41700,13857},{41700,13902},{41700,13916},{41700,13910},{41700,13915},{41700,13914},{41739,13815},{41529,13900},{41700,13855},{41702,0},{41814,13937},{41795,0},{41798,0},{41843,0},{41807,0},{41804,0},{41810,0},{41855,0},{41849,0},{41819,0},{41825,0},{41831,0},{41834,0},{41837,0},{41828,0},
{41840,0},{41846,0},{41852,0},{41861,0},{41858,0},{41864,0},{41894,0},{41891,0},{41822,0},{41885,0},{41879,0},{41882,0},{41873,0},{41870,0},{41876,0},{41867,0},{41888,0},{41906,0},{41921,0},{41924,0},{41936,0},{41927,0},{41930,0},{41532,13933},{41933,0},{41939,0},{41918,0},{41942,0},{41909,0},{41945,0},{41799,13773},{41442,13930},{41949,13771},{41955,13901},{42069,13928},{41949,13851},{41964,13906},{41712,13986},{41721,13987},{41967,13990},{41736,13991},{41820,13983},{41976,13873},{41991,13875},{41985,13996},{41754,13994},{41841,13983},{41805,13983},{41847,13983},{41505,13983},{41853,13983},{42030,14013},{42012,14006},{42027,13924},{42024,14014},{42036,13967},{42033,13882},{42021,14005},{41874,13983},{42045,13682},{42065,0},{42090,13741},{42155,0},{42090,13902},{42090,13905},{42101,0},{42090,13869},{42107,0},{42104,0},{42110,0},{42113,0},{42116,0},{42119,0},{42122,0},{42125,0},{42128,0},{42137,0},{42134,0},{42131,0},{42098,0},{42090,13836},{42090,13834},{42090,13914},{42090,13910},{42140,0},{42143,0},{42146,0},{42094,13969},{42255,14033},{42094,14086},{42164,0},{42158,0},{42149,0},{42090,13857},{42167,0},{42161,0},{42099,13927},{42152,0},{42103,14031},{42288,14033},{42103,14097},{42170,0},{41199,14030},{42090,13770},{42090,13848},{42099,14058},{42171,13803},{42090,13855},{41644,14024},{42318,14033},{41644,14107},{42302,0},{42179,0},{42188,0},{42185,0},{41697,14063},{42194,0},{42195,14063},{42201,14063},{42099,14066},{42207,14063},{42204,14063},{42213,14063},{42219,14063},{42216,14063},{42228,14063},{42236,0},{42231,14063},{42242,0},{42245,0},{42239,0},{42189,14026},{42249,13925},{42276,14063},{42264,14063},{42275,0},{42284,0},{42270,14063},{42285,14063},{42279,14063},{42267,14063},{42099,14060},{41916,14063},{42263,0},{42181,14077},{42426,14033},{42181,14143},{41670,14063},{42297,14016},{42296,0},{41160,14063},{41313,14063},{42189,13771},{42305,0},{42311,0},{42308,0},{42317,0},{42447,13857},{42341,0},{42075,14154},{42347,0},{42350,0},{42353,0},{42359,0},{42356,0},{42087,14152},{42362,0},{42365,0},{42371,0},{42368,0},{41898,14128},{41895,14124},{42389,0},{42377,0},{42392,0},{42398,0},{42416,0},{42407,0},{42395,0},{42413,0},{42410,0},{42419,0},{42399,14134},{42084,14148},{42422,0},{42434,0},{42437,0},{42051,14175},{42060,14173},{42528,14019},{42312,14180},{42491,0},{42531,14022},{42433,14141},{42573,14163},{42433,14192},{42545,0},{42552,14027},{41979,14158},{42480,14159},{41997,14161},{41994,14162},{42000,14164},{42295,14183},{42603,14163},{42295,14202},{42006,14165},{42009,14167},{42003,14166},{42507,14171},{42504,14170},{41316,14172},{42438,14182},{42467,0},{42537,14178},{42054,14174},{42468,13984},{42558,14110},{42632,0},{42324,14211},{42585,14114},{42566,0},{42333,14187},{42450,14189},{42564,14163},{42588,14070},{42593,0},{42594,14075},{42638,0},{42597,14074},{42600,14082},{42618,14126},{42611,0},{42612,14127},{42615,14084},{42561,14111},{42555,14109},{42622,14208},{42705,14163},{42622,14236},{42639,14151},{42642,14153},{42629,0},{42570,14112},{42471,14194},{42646,14232},{42729,14163},{42646,14244},{42718,14216},{42738,14163},{42718,14247},{42728,0},{42719,0},{42668,0},{42694,14220},{42756,14163},{42694,14253},{42679,14147},{42765,14163},{42679,14256},{42713,0},{360,14222},{42649,14218},{42780,14163},{42649,14261},{42671,0},{42683,0},{42677,0},{42673,14226},{42798,14163},{42673,14267},{42686,0},{42695,0},{42698,0},{42689,0},{42700,14234},{42819,14163},{42700,14274},{42703,14238},{42828,14163},{42703,14277},{42725,0},{42665,0},{42715,14215},{42843,14163},{42715,14282},{42656,0},{435,14222},{42720,14171},{361,145},{42861,14222},{361,14288},{42737,0},{42748,14217},{42873,14163},{42748,14292},{42817,14270},{42882,14163},{42817,14295},{360,14251},{41946,14280},{42652,14250},{42897,14163},{42652,14300},{42838,14272},{42906,14163},{42838,14303},{42764,0},{42779,0},{42744,14262},{42836,0},{42579,14258},{42790,14224},{42930,14163},{42790,14311},{42690,14257},{42851,0},{42796,14264},{42945,14163},{42796,14316},{42793,14263},
{42954,14163},{42793,14319},{42808,14265},{42963,14163},{42808,14322},{42262,14286},{42972,14163},{42262,14325},{42814,14269},{42981,14163},{42814,14328},{42853,14241},{42990,14163},{42853,14331},{42777,13858},{42489,14249},{42827,0},{42998,0},{41685,14306},{42881,0},{42905,0},{43004,0},{42891,13815},{42896,0},{42924,14335},{42980,0},{42939,14312},{42942,14290},{42891,13470},{42951,14329},{42936,14268},{42942,14305},{42979,14237},{42912,14314},{42912,14296},{43001,0},{42915,14296},{42960,14323},{42891,13892},{43026,14251},{42744,14336},{43017,14338},{43029,14346},{43059,14305},{42927,14344},{43035,14268},{43038,14343},{43032,14258},{43043,0},{43029,14355},{43029,14296},{43020,14219},{43047,14348},{42891,14351},{42939,14356},{43074,14370},{43086,14361},{43077,14360},{43119,14371},{42786,14370},{43089,14290},{43092,14317},{43089,14320},{43089,14257},{43092,14320},{43089,14268},{43101,118},{43090,14230},{42580,14366},{360,14370},{43077,14262},{42690,14363},{43089,14375},{43131,14189},{43134,14376},{43125,14336},{43131,14363},{43146,14230},{43140,14381},{43149,14363},{43152,14345},{42772,14390},{43157,0},{42786,14374},{43128,14377},{43131,14376},{43050,14377},{43107,14379},{43131,14368},{43056,14379},{43125,14339},{42891,14386},{42891,14387},{43131,14393},{43176,14391},{43182,14395},{43095,14395},{43191,14323},{43188,14268},{43218,14405},{43185,14290},{43185,14314},{43186,14290},{43224,14407},{42952,14398},{43192,14323},{42961,14399},{43189,14268},{43206,14363},{42786,14403},{43164,14391},{43167,14395},{42891,14400},{43284,14429},{43236,14391},{43260,14290},{43281,14375},{43179,14413},{43227,14430},{43242,14262},{42921,14414},{43284,14391},{43245,14305},{42943,14419},{43255,14304},{43246,14305},{42787,14414},{42988,14416},{42937,14417},{43267,14336},{42891,14426},{42891,14425},{42891,14424},{42891,14423},{42891,14421},{43298,0},{43301,0},{42568,14433},{43212,14435},{42100,14436},{42925,14434},{42889,14441},{43018,14439},{42745,14438},{43015,14437},{43111,14440},{42891,14443},{42891,14445},{42891,14444},{42891,14448},{42924,14434},{42891,14447},{42891,14446},{42891,14442},{43006,14469},{43011,14454},{43368,14297},{43373,0},{43071,14455},{41169,14455},{41661,14455},{360,14458},{42891,14460},{42891,14462},{42891,14464},{43023,14455},{43389,14297},{42891,14459},{42891,14461},{43436,0},{43427,0},{360,14476},{43433,0},{43439,0},{43454,0},{43419,14297},{43442,0},{360,14491},{43467,120},{360,14488},{43470,14493},{43476,14354},{43496,0},{43490,0},{43499,0},{43493,0},{1,0},{43516,14372},{43516,14411},{43516,14410},{43516,14431},{43516,14449},{43516,14470},{43516,14450},{43516,14452},{43516,14451},{43516,14471},{43516,14453},{43516,14472},{43516,14486},{43516,14494},{43516,14467},{43516,14481},{43516,14465},{43516,14468},{43516,14466},{43516,14482},{43516,14487},{43516,14485},{43516,14483},{43516,14504},{43516,14495},{43516,14503},{43516,14501},{43516,14502},{43516,14474},{43516,14474},{43516,14500},{43516,14401}
