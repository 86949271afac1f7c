// {first wire*3+kind, second wire}; kinds: 0 and, 1 xor, 2 not; wires 0..31 are the operand
{86,0},{83,0},{92,0},{74,0},{71,0},{80,0},{77,0},{75,24},{90,23},{89,0},{17,0},{20,0},{26,0},{2,0},{11,0},{8,0},{29,0},{44,0},{56,0},{53,0},{35,0},{38,0},{47,0},{65,0},{62,0},{68,0},{50,0},{59,0},{14,0},{23,0},{5,0},{41,0},{32,0},{81,26},{87,28},{108,35},{123,34},{114,37},{99,32},{198,65},{120,39},{117,23},{165,56},{150,51},{138,47},{126,43},{162,49},{156,53},{132,48},{95,0},{210,68},{201,69},{213,72},{213,73},{228,60},{231,61},{225,59},{237,63},{234,58},{240,64},{222,57},{249,82},{254,0},{255,45},{264,92},{267,90},{261,91},{281,0},{285,62},{291,96},{279,81},{282,99},{300,86},{308,0},{309,17},{309,16},{309,18},{63,103},{66,103},{60,103},{57,103},{45,103},{30,103},{33,103},{27,103},{24,103},{21,103},{18,103},{39,103},{42,103},{36,103},{15,103},{6,103},{0,103},{3,103},{311,0},{309,23},{309,24},{309,25},{312,98},{309,81},{12,103},{9,103},{326,0},{320,0},{323,0},{338,0},{329,0},{335,0},{332,0},{336,111},{341,0},{330,109},{324,113},{318,113},{377,0},{371,0},{318,108},{321,113},{344,0},{350,0},{356,0},{362,0},{359,0},{368,0},{347,0},{365,0},{353,0},{331,109},{331,109},{374,0},{381,36},{386,0},{389,0},{381,38},{392,0},{393,101},{382,27},{401,0},{404,0},{381,81},{380,0},{318,137},{324,136},{408,135},{321,135},{327,141},{420,138},{330,139},{417,141},{333,138},{336,140},{487,134},{447,107},{432,142},{454,115},{457,117},{454,116},{460,117},{463,121},{466,118},{466,123},{463,122},{469,115},{321,136},{475,113},{430,107},{318,135},{406,112},{309,141},{421,109},{485,0},{378,147},{514,133},{491,0},{500,0},{506,0},{487,126},{511,123},{309,140},{543,183},{525,113},{522,108},{528,137},{321,175},{543,179},{543,142},{540,183},{432,182},{438,177},{546,178},{435,174},{522,143},{531,113},{537,178},{549,178},{543,182},{629,0},{396,208},{632,0},{525,143},{522,113},{531,143},{531,106},{450,175},{540,179},{540,182},{555,113},{555,143},{432,183},{426,178},{432,179},{540,142},{563,0},{569,0},{566,0},{572,0},{581,0},{578,0},{575,0},{584,0},{587,0},{524,0},{590,0},{593,0},{596,0},{599,0},{527,0},{548,0},{551,0},{602,0},{608,0},{605,0},{606,160},{609,201},{375,209},{492,206},{621,37},{614,0},{617,0},{554,0},{645,113},{639,137},{645,143},{648,143},{642,143},{663,222},{657,223},{654,221},{675,136},{672,135},{693,272},{573,253},{756,195},{552,271},{702,136},{705,143},{699,135},{696,137},{678,240},{729,239},{732,236},{729,223},{732,240},{732,223},{729,240},{723,223},{723,236},{669,222},{657,239},{714,221},{663,227},{708,227},{714,223},{654,236},{669,227},{717,227},{558,221},{636,236},{660,223},{684,221},{558,236},{651,223},{660,239},{636,223},{558,240},{720,227},{636,221},{678,236},{717,222},{720,222},{654,223},{654,240},{651,240},{684,223},{660,240},{726,240},{726,223},{558,223},{711,236},{732,221},{660,221},{657,221},{714,240},{723,221},{729,221},{723,240},{651,239},{651,236},{726,239},{711,223},{732,239},{678,239},{726,236},{711,239},{684,236},{684,239},{726,221},{711,221},{660,236},{678,221},{714,239},{729,236},{657,240},{723,239},{684,240},{708,222},{558,239},{651,221},{654,239},{711,240},{657,236},{678,223},{636,239},{735,188},{738,188},{561,247},{735,247},{744,193},{750,193},{570,249},{744,249},{753,195},{753,253},{765,254},{771,197},{780,261},{774,259},{603,263},{792,263},{798,202},{687,147},{375,229},{803,0},{630,272},{797,0},{806,0},{496,268},{809,0},{693,184},{636,240},{714,236},{654,275},{651,274},{657,277},{660,273},{654,276},{678,277},{836,0},{846,227},{839,0},{684,275},{651,281},{842,0},{1149,173},{729,289},{729,290},{870,222},{723,275},{654,290},{732,277},{822,222},{723,288},{828,222},{729,287},{729,281},{729,277},{867,227},{714,275},{822,227},{831,227},{657,288},{726,281},{714,274},{732,287},{714,273},{660,290},{678,273},{729,274},{678,287},{732,281},{714,290},{660,281},{660,274},{657,287},{654,287},{636,274},{660,277},{726,290},{711,276},{657,289},{651,287},{636,277},{711,275},{651,290},{867,222},{723,290},{558,289},{711,273},{651,282},{726,274},{558,290},{636,282},{938,0},{923,0},{870,227},{678,274},{678,281},{926,0},{950,0},{684,290},
{828,227},{825,227},{819,222},{651,289},{911,0},{636,290},{914,0},{636,281},{636,275},{861,227},{932,0},{875,0},{681,273},{902,0},{636,276},{684,281},{678,288},{654,277},{920,0},{944,0},{684,289},{684,288},{654,289},{654,281},{558,277},{558,273},{953,0},{947,0},{941,0},{935,0},{929,0},{723,281},{899,0},{884,0},{893,0},{887,0},{896,0},{890,0},{711,274},{657,273},{711,289},{711,281},{711,288},{657,275},{726,289},{726,282},{726,276},{726,288},{732,275},{917,0},{660,289},{660,287},{726,273},{905,0},{657,290},{908,0},{723,282},{881,0},{729,288},{729,275},{723,277},{729,282},{732,274},{660,282},{657,276},{714,287},{878,0},{660,276},{729,273},{651,276},{1013,0},{651,277},{864,227},{636,287},{956,0},{992,0},{977,0},{1010,0},{678,275},{723,289},{861,222},{983,0},{732,290},{678,276},{726,287},{995,0},{989,0},{959,0},{684,276},{732,282},{732,289},{558,282},{864,222},{732,276},{962,0},{846,222},{660,275},{831,222},{651,273},{558,274},{558,275},{980,0},{654,273},{678,289},{974,0},{678,290},{965,0},{968,0},{723,273},{654,274},{558,276},{971,0},{636,289},{732,273},{1007,0},{1004,0},{726,277},{657,274},{986,0},{1001,0},{714,288},{1178,0},{714,277},{1181,0},{998,0},{825,222},{714,281},{1016,0},{1022,0},{1031,0},{1034,0},{558,281},{714,282},{1037,0},{1019,0},{1028,0},{711,290},{651,275},{684,274},{1025,0},{660,288},{1040,0},{657,281},{729,276},{1052,0},{1046,0},{711,277},{843,227},{678,282},{1043,0},{1049,0},{1055,0},{558,288},{726,275},{651,288},{1058,0},{714,276},{684,287},{723,274},{843,222},{684,273},{1064,0},{1067,0},{684,282},{1061,0},{711,287},{1070,0},{558,287},{657,282},{1079,0},{1076,0},{723,276},{1073,0},{723,287},{1085,0},{1082,0},{1088,0},{1091,0},{1094,0},{636,288},{1097,0},{714,289},{711,282},{732,288},{654,282},{854,0},{684,277},{1127,0},{654,288},{1106,0},{1109,0},{1098,189},{1110,192},{1122,194},{1130,0},{1128,256},{1136,0},{1139,0},{1137,262},{1142,0},{1145,0},{1121,0},{1118,0},{1155,270},{1154,0},{851,0},{1160,0},{1173,205},{860,0},{1115,0},{1133,0},{1148,0},{1103,0},{857,0},{387,388},{1169,0},{636,273},{2039,0},{1193,0},{1196,0},{1184,0},{1187,0},{1190,0},{1199,0},{1214,0},{1211,0},{1205,0},{1313,0},{1355,0},{1268,0},{1265,0},{1364,0},{1259,0},{1316,0},{1229,0},{1331,0},{1241,0},{1343,0},{1247,0},{1334,0},{1295,0},{1235,0},{1340,0},{1289,0},{1349,0},{1319,0},{1346,0},{1253,0},{1250,0},{1244,0},{1361,0},{1328,0},{1325,0},{1310,0},{1358,0},{1337,0},{1352,0},{1322,0},{1298,0},{1301,0},{1304,0},{1307,0},{1262,0},{1280,0},{1271,0},{1274,0},{1277,0},{1286,0},{1238,0},{1232,0},{1226,0},{1223,0},{1283,0},{1256,0},{1292,0},{1373,0},{1415,0},{1397,0},{1428,460},{1559,0},{1565,0},{1574,0},{1379,0},{1376,0},{1526,0},{1523,0},{1532,0},{1577,0},{1394,0},{1511,0},{1583,0},{1508,0},{1580,0},{1412,0},{1391,0},{1592,0},{1406,0},{1400,0},{1529,0},{1520,0},{1388,0},{1457,0},{1454,0},{1383,474},{1460,0},{1442,0},{1418,0},{1436,0},{1491,498},{1427,0},{1500,499},{1451,0},{1484,0},{1568,0},{1439,0},{1571,0},{1463,0},{1466,0},{1433,0},{1535,0},{1553,0},{1541,0},{1514,0},{1586,0},{1547,0},{1544,0},{1505,0},{1554,489},{1517,0},{1664,0},{1691,0},{1607,0},{1685,0},{1688,0},{1697,0},{1631,0},{1628,0},{1752,405},{1610,0},{1598,0},{1595,0},{1692,473},{1625,0},{1751,0},{1604,0},{1488,538},{1676,0},{1679,0},{1682,0},{1727,0},{1721,0},{1739,0},{1718,0},{1667,0},{1670,0},{1706,0},{1715,0},{1700,0},{1742,0},{1647,548},{1730,0},{1655,0},{1658,0},{1661,0},{1637,0},{1643,0},{1640,0},{1757,0},{1497,539},{1599,584},{1784,0},{1802,0},{1787,0},{1794,581},{1811,0},{1769,0},{1799,0},{1791,539},{1805,0},{1766,0},{1829,0},{1824,539},{1847,0},{1817,0},{1479,456},{1820,0},{1832,0},{1835,0},{1500,612},{1788,400},{1758,460},{1599,500},{1853,0},{1865,0},{1734,493},{1871,0},{1862,0},{1850,0},{1868,0},{1776,581},{1859,0},{1554,499},{1587,520},{1710,469},{1886,0},{1892,0},{1776,570},{1880,0},{1485,469},{1895,0},{1905,461},{1904,0},{1875,633},{1910,0},{1491,537},{1839,461},{1476,481},{1470,455},{1758,492},{1746,497},{1928,0},{1934,0},{1779,569},{1937,0},{1842,400},{1940,0},
{1554,586},{1943,0},{1731,592},{1950,648},{1949,0},{1497,492},{1746,533},{1620,405},{1959,652},{1560,549},{1955,0},{1500,608},{1806,476},{1365,456},{1473,597},{1842,540},{1731,604},{1976,0},{1485,567},{1473,643},{1839,548},{1836,570},{1548,474},{768,657},{1920,625},{1587,489},{1752,473},{1734,499},{1491,602},{1746,400},{1875,635},{591,657},{1887,635},{1821,474},{1470,612},{1536,499},{1710,476},{1134,660},{1980,659},{1587,500},{1137,659},{1401,469},{1599,529},{1986,663},{1599,607},{1791,574},{1554,567},{1770,461},{1914,641},{1899,637},{1734,497},{1707,469},{1206,629},{1839,593},{1761,608},{1836,564},{1896,492},{1992,665},{1905,564},{1998,667},{2004,669},{2013,669},{2016,665},{1788,574},{1614,460},{1917,632},{1470,570},{1929,469},{1536,581},{1770,489},{1839,643},{1761,557},{1644,481},{1479,405},{1743,564},{1773,574},{1647,612},{1761,598},{1473,584},{1788,641},{1985,0},{1854,567},{1923,467},{1887,613},{1599,538},{1368,460},{2022,387},{1161,663},{1743,544},{1821,597},{1812,635},{1476,569},{1644,405},{1917,604},{1599,539},{1770,607},{1491,489},{1881,581},{2012,0},{1599,537},{1473,539},{1967,0},{1964,0},{1970,0},{2025,652},{2028,648},{2031,130},{502,677},{1758,584},{2052,400},{1206,681},{2055,405},{2049,682},{2163,455},{2172,467},{2052,695},{2127,491},{2187,682},{2196,481},{1560,703},{2142,688},{2181,490},{2091,469},{2208,720},{1560,694},{2073,455},{1485,698},{2175,496},{2178,715},{2193,492},{1587,708},{2151,702},{2103,706},{2211,719},{2121,699},{2130,493},{2094,693},{2205,705},{2175,688},{1368,692},{2166,512},{2154,690},{2190,723},{2139,700},{1548,711},{2199,473},{2148,697},{2202,704},{1479,696},{2184,482},{2136,702},{2202,733},{2352,791},{2328,778},{2259,747},{2163,587},{2337,694},{2184,747},{2187,784},{2355,740},{2040,557},{2364,711},{2301,764},{1746,716},{2313,773},{2061,537},{2226,708},{2283,456},{2370,744},{2256,769},{2250,550},{1599,683},{2349,738},{2229,749},{2361,587},{2367,489},{2154,570},{1620,732},{1587,763},{2331,703},{1422,768},{2202,756},{1473,774},{2280,781},{2286,686},{2361,582},{1734,751},{2373,684},{2112,481},{1731,703},{2358,754},{2244,772},{2265,775},{2223,784},{2217,702},{2274,746},{2310,745},{2271,740},{2130,500},{2442,405},{1770,760},{2409,775},{2289,686},{2208,400},{2229,789},{2472,795},{2055,564},{2451,718},{1491,812},{2193,820},{2490,712},{2424,593},{2457,705},{2400,476},{2430,798},{2175,482},{2388,538},{2121,801},{2397,811},{2496,714},{1722,777},{1806,829},{2130,810},{2439,544},{2055,780},{2259,797},{2475,767},{2412,759},{2286,596},{2439,796},{1536,807},{2415,695},{2445,794},{1200,809},{2232,792},{2493,826},{2181,809},{2481,825},{2166,713},{2463,537},{2469,816},{2514,842},{2097,704},{2205,704},{2520,613},{1494,841},{1794,680},{1692,738},{2481,761},{2499,690},{1761,683},{1842,837},{2553,852},{2367,763},{2511,811},{2514,732},{1731,791},{2169,795},{2484,736},{2541,845},{2544,764},{2355,814},{2187,694},{2202,708},{2538,843},{2127,740},{2232,759},{2490,809},{2274,538},{1854,751},{2439,474},{2550,849},{2352,777},{2277,768},{2157,855},{2349,768},{1647,684},{2172,855},{2082,824},{2481,746},{2337,481},{2247,473},{2349,762},{2190,786},{2505,697},{2589,496},{2562,590},{1473,698},{2265,497},{2229,772},{2145,550},{2310,537},{2535,849},{2208,816},{2490,731},{2154,763},{2187,711},{1743,704},{2124,781},{1791,798},{2127,859},{2184,518},{1671,809},{2463,455},{2148,489},{1881,802},{2589,574},{2484,711},{2079,842},{2361,593},{2376,567},{2286,796},{2574,745},{2418,777},{1548,720},{2586,627},{1215,849},{2334,710},{1887,856},{1872,860},{2433,842},{2481,564},{2544,861},{2418,818},{1707,767},{1875,816},{2406,805},{2514,473},{1791,770},{2571,819},{2160,796},{2244,839},{2268,859},{2136,749},{1536,758},{2211,763},{2157,490},{2163,829},{2613,748},{2175,807},{2601,717},{2151,696},{2199,798},{1812,699},{2550,740},{1731,794},{1620,799},{2334,780},{2469,713},{2145,789},{1734,810},{2169,805},{2604,538},{2094,795},{2226,739},{1671,861},{2286,639},{2439,801},{2184,806},{2349,723},{1887,859},{2241,748},{2130,680},{1560,765},{2256,845},
{2283,686},{2100,695},{2379,637},{2205,718},{2628,874},{2376,570},{2487,460},{2055,706},{2442,567},{2469,732},{2373,772},{1920,856},{1875,826},{2190,405},{2505,812},{1788,691},{2064,618},{1473,816},{2463,641},{2409,713},{1722,703},{2160,695},{2466,497},{2421,745},{2073,539},{2463,578},{2334,537},{1929,682},{2538,638},{2418,590},{2265,467},{1887,801},{2208,591},{2457,498},{2247,705},{2475,633},{2529,842},{2397,776},{2136,592},{2646,699},{2142,550},{2235,805},{2121,618},{2289,765},{2205,567},{2166,742},{2151,774},{2643,498},{2358,765},{2478,520},{2364,789},{2181,814},{1383,746},{1842,711},{2475,719},{2250,538},{2661,701},{2652,725},{2658,858},{2358,544},{1587,767},{1743,813},{2061,861},{2418,830},{1731,729},{2535,780},{2652,683},{1599,759},{2172,719},{2589,627},{2514,737},{2406,705},{1536,739},{2523,643},{2274,755},{2406,798},{2337,635},{2397,777},{2544,867},{2208,802},{1548,838},{2361,815},{2487,751},{2430,749},{2088,706},{2577,768},{2259,776},{2142,789},{2325,717},{2616,637},{2262,544},{1731,692},{2649,693},{1548,769},{2190,809},{1905,890},{2544,820},{2352,780},{1554,697},{1497,798},{2202,795},{2388,756},{2193,834},{2685,886},{1923,689},{2106,781},{2517,746},{2448,850},{2601,890},{2678,0},{2355,802},{2145,752},{2682,893},{2274,756},{2256,695},{2670,751},{2190,819},{2328,812},{2160,789},{2484,639},{2229,739},{1383,842},{2451,691},{2451,703},{2280,841},{2688,833},{2568,593},{2481,899},{2664,872},{2505,549},{2082,618},{2589,893},{2478,490},{2241,746},{2693,0},{1788,759},{2217,482},{2523,460},{2349,537},{1383,816},{1920,750},{363,892},{1812,682},{2127,593},{2403,699},{2172,604},{2475,691},{2133,815},{2181,813},{1842,734},{1491,780},{2355,739},{2241,749},{2070,807},{2211,638},{2247,702},{2538,584},{2463,742},{2145,699},{2172,870},{2703,902},{2652,846},{2229,703},{2205,750},{1215,781},{1812,833},{2121,764},{2127,820},{2172,700},{2055,596},{2139,740},{2127,696},{1770,681},{2709,890},{2738,0},{2130,814},{2256,757},{2193,814},{1467,688},{345,897},{2475,540},{2721,680},{2457,612},{2418,805},{1791,850},{2187,749},{2202,455},{2664,469},{2514,807},{1821,680},{2373,829},{2259,738},{2328,704},{2514,624},{2262,781},{2430,604},{1839,701},{2274,742},{2190,489},{2502,815},{2304,693},{2550,689},{2538,764},{2187,834},{2649,637},{2622,868},{2178,794},{2043,592},{2154,772},{1599,860},{2268,824},{1650,693},{2244,795},{2430,460},{2265,592},{2727,884},{2358,549},{2199,591},{1887,696},{2397,713},{1896,818},{1446,798},{2286,754},{2397,686},{1476,858},{1692,751},{2106,815},{1647,814},{1560,681},{2589,855},{2505,753},{2469,868},{2208,692},{2094,474},{2670,740},{2142,716},{2124,544},{2511,711},{2364,738},{2175,816},{2229,481},{2226,467},{2397,691},{2616,608},{2250,855},{2181,405},{2151,567},{2172,768},{2259,899},{2289,899},{2568,843},{2406,818},{2100,859},{2544,482},{2457,537},{2061,818},{2406,700},{2127,780},{1839,893},{1206,870},{2070,591},{2418,796},{2658,760},{2499,574},{2604,456},{2358,789},{1200,811},{2427,682},{2244,602},{1896,834},{2544,706},{2223,581},{2346,557},{2202,841},{2505,747},{2151,694},{2166,564},{2574,689},{2481,737},{1617,842},{1872,700},{2283,692},{2475,693},{1899,689},{2184,607},{1779,842},{2409,846},{2511,596},{1614,769},{1911,745},{2505,496},{2780,0},{2783,0},{1365,738},{2334,696},{2157,683},{2244,716},{1485,683},{2751,632},{2256,785},{2610,767},{2475,706},{2166,499},{2193,742},{2664,701},{2484,812},{2379,537},{2658,797},{1548,774},{1911,693},{2409,817},{2475,757},{1560,759},{2250,756},{1467,686},{2760,198},{2259,614},{2460,798},{2199,811},{2142,833},{2208,467},{1794,824},{2064,777},{2448,861},{2601,754},{2427,697},{2580,701},{2232,698},{2511,684},{2265,710},{2622,592},{2160,591},{2181,707},{1479,794},{2481,574},{2295,692},{1707,699},{1899,700},{2772,750},{1206,768},{1422,772},{2397,495},{2274,550},{2649,745},{1887,745},{2292,861},{2457,805},{2349,637},{1758,681},{2226,813},{2178,714},{2670,405},{2307,593},{2307,706},{2163,734},{2193,792},{1491,697},{2121,829},{2118,695},{2784,548},{1560,776},{1839,761},{2649,696},{2451,602},
{2127,712},{2628,695},{2481,893},{2163,693},{2565,687},{2049,797},{2478,744},{2346,596},{2346,592},{2268,557},{2334,775},{2787,200},{2184,716},{1842,683},{2172,633},{1896,883},{2178,557},{1914,770},{2274,474},{2274,807},{2103,767},{2055,810},{2196,796},{2172,876},{2463,733},{2658,706},{1536,774},{1761,839},{2505,816},{2436,456},{2334,703},{2712,627},{2112,574},{2190,614},{2166,750},{2796,103},{2379,893},{2409,872},{2628,890},{2199,776},{2040,769},{2130,591},{1881,799},{1476,820},{2484,482},{1773,777},{2157,867},{1614,801},{2514,584},{1488,846},{1497,688},{2439,694},{2616,850},{1773,764},{2073,760},{2430,489},{2757,884},{2289,841},{1788,689},{2664,860},{1734,779},{2205,754},{1872,883},{2502,777},{2235,842},{2262,820},{1620,718},{2670,859},{2130,490},{2070,635},{2565,883},{2160,764},{2070,461},{2250,482},{2238,686},{1842,759},{2097,770},{2355,757},{2589,767},{1548,839},{2196,794},{2511,756},{1485,696},{2406,859},{1821,699},{2115,476},{2133,499},{2178,823},{2178,764},{2124,824},{2784,685},{2469,793},{1773,696},{1791,858},{2103,883},{2664,627},{1806,791},{2814,643},{2166,730},{2325,801},{2160,802},{2427,481},{2169,770},{2136,598},{2817,783},{2514,690},{2397,759},{1206,692},{1731,779},{2352,497},{1836,797},{1881,782},{2601,680},{2244,473},{2358,497},{2820,467},{2169,781},{2328,709},{1758,757},{1647,705},{2217,591},{2334,497},{2499,768},{2478,624},{2355,635},{1896,893},{2259,748},{2490,461},{2451,607},{2511,695},{1734,772},{2241,695},{2628,500},{2514,833},{2568,688},{2415,829},{2391,805},{2334,460},{2544,858},{1917,899},{2535,751},{2589,624},{2172,682},{2451,495},{2658,846},{2202,749},{1428,812},{2349,618},{2328,774},{1485,691},{2514,762},{1554,788},{2175,538},{2445,537},{2322,467},{2484,842},{2451,713},{2226,474},{2211,803},{2178,518},{2052,704},{2418,714},{1707,686},{2598,801},{2409,860},{2376,769},{1494,717},{2166,490},{2241,493},{2229,829},{2049,687},{2043,768},{2361,755},{1536,709},{2430,775},{1485,711},{2364,824},{1746,765},{2049,770},{2610,859},{2568,496},{2517,717},{2616,604},{1788,716},{1206,735},{2472,612},{2070,455},{2196,819},{2040,774},{1752,694},{2139,491},{1650,756},{2169,455},{2529,791},{2628,848},{2286,718},{2157,598},{2376,493},{2379,796},{2184,787},{2574,688},{2409,590},{1887,737},{2208,533},{2232,529},{2229,520},{2840,0},{2187,456},{2565,768},{1707,693},{2463,785},{1914,807},{1773,684},{2841,608},{2577,770},{2499,490},{1467,707},{351,946},{2337,813},{1617,739},{1446,801},{2846,0},{2475,750},{2172,730},{2849,0},{369,949},{1881,818},{1479,811},{2202,684},{2283,476},{2346,794},{2544,643},{2469,849},{2856,816},{2208,700},{2277,801},{1470,807},{2292,757},{2478,557},{2157,700},{2262,839},{2166,691},{1842,752},{2409,496},{2115,815},{2364,482},{1731,717},{2061,860},{1731,795},{2346,820},{1611,692},{1407,695},{2184,874},{2043,883},{1488,687},{1494,692},{2334,690},{1914,686},{2259,829},{2655,954},{1650,702},{1761,760},{2658,818},{2187,703},{2145,489},{2871,624},{1899,861},{2511,495},{2379,699},{2103,859},{1215,746},{2247,549},{2514,769},{1554,805},{2070,757},{1491,814},{2652,861},{2121,792},{2670,637},{2250,713},{2529,849},{1758,768},{2874,496},{2358,801},{2289,570},{1620,682},{2604,683},{2160,861},{2355,550},{2181,751},{2499,683},{2148,739},{1470,698},{2100,689},{2364,815},{2880,807},{2490,607},{2469,750},{2094,699},{2316,704},{2259,491},{2178,700},{2199,548},{1746,796},{1446,696},{2286,612},{2145,593},{2346,491},{1206,846},{2652,890},{2211,870},{1821,688},{2160,850},{2886,400},{2187,548},{1470,697},{2538,608},{1746,700},{2361,767},{2895,456},{2670,858},{2217,811},{2121,781},{2499,687},{2568,715},{1446,769},{2106,456},{2259,695},{1671,842},{2040,818},{2529,635},{2475,598},{2163,538},{1644,716},{1560,795},{2379,608},{2268,850},{2511,698},{1920,858},{2490,604},{2262,809},{2265,841},{2154,699},{2256,770},{2490,833},{2361,730},{2550,481},{2172,608},{2154,574},{2358,602},{1476,811},{2664,608},{2589,874},{1914,781},{2331,815},{2304,706},{2316,815},{2154,697},{2172,582},{1770,809},{2205,841},{2211,816},{2910,820},{1467,692},
{2166,774},{2463,705},{2163,732},{2142,872},{1479,760},{2478,570},{2229,738},{2616,757},{2544,843},{2535,569},{2409,777},{2226,704},{1794,842},{1821,807},{2283,461},{1554,739},{1872,820},{2919,845},{2181,498},{2382,738},{2583,798},{1773,805},{2481,756},{2073,765},{1632,694},{2925,663},{2055,738},{2796,387},{2172,701},{2187,476},{2928,662},{2481,704},{1485,690},{1887,849},{2337,829},{2175,835},{2217,797},{2340,476},{1734,839},{2307,757},{2478,794},{2361,708},{2184,587},{1500,807},{2259,765},{2265,814},{1899,850},{2289,829},{2127,768},{1914,855},{2544,870},{2169,696},{1206,856},{2343,798},{1752,745},{2580,467},{1752,680},{2232,695},{1494,759},{1548,732},{2418,782},{1560,749},{2265,476},{1560,819},{2421,809},{2535,855},{2388,550},{2934,979},{1881,812},{2943,482},{2481,682},{2409,845},{2151,544},{2670,633},{2190,826},{2226,778},{2442,684},{2481,798},{2481,824},{1734,813},{2292,689},{2142,792},{2274,629},{2211,710},{2490,540},{2349,781},{1500,834},{2325,779},{1875,845},{2193,641},{2178,744},{2403,751},{2163,756},{2181,744},{1734,685},{2847,671},{2409,593},{2391,777},{1554,708},{1824,757},{1548,767},{2346,584},{2229,581},{1758,719},{2361,405},{1758,827},{2166,690},{2664,890},{2490,529},{2658,870},{1536,699},{2187,529},{2418,614},{1650,797},{1788,739},{2838,672},{1842,834},{2274,798},{1500,845},{2691,675},{1731,707},{2418,835},{1872,849},{2367,493},{1887,740},{2205,812},{2349,811},{1746,752},{2514,544},{2676,676},{2250,774},{1917,849},{1812,687},{2301,745},{2187,819},{2334,499},{2019,906},{2985,390},{1171,995},{2469,811},{1731,704},{2262,801},{1806,834},{2175,549},{3000,686},{3003,687},{2997,689},{2994,688},{3012,1005},{3108,1032},{3045,691},{3102,1028},{3072,584},{3006,1003},{3081,567},{3114,586},{3024,1010},{3078,1012},{3027,766},{3021,786},{3033,780},{3087,782},{3039,1014},{3048,1017},{3093,765},{3105,735},{3069,1022},{3060,574},{3057,688},{3063,759},{3054,569},{3099,581},{3075,544},{3111,490},{3018,779},{3090,769},{3117,692},{3168,815},{3174,828},{3195,518},{3231,1064},{3189,764},{3156,802},{3180,1059},{3219,770},{3150,1055},{3207,602},{3123,1051},{3261,793},{3162,604},{3252,1085},{3210,746},{3228,1072},{3126,1040},{3240,729},{3249,721},{3204,798},{3138,1066},{3135,717},{3225,1044},{3222,806},{3141,1048},{3234,1079},{3246,1081},{3147,795},{3129,533},{3279,539},{3318,839},{3276,607},{3285,757},{3369,1096},{3306,803},{3354,1127},{3387,516},{3303,520},{3267,1121},{3333,1114},{3291,834},{3384,686},{3348,1108},{3300,602},{3351,835},{3372,1122},{3264,727},{3360,1109},{3339,1112},{3405,823},{3408,844},{3402,612},{3414,758},{3417,467},{3396,582},{3402,770},{3438,1159},{3447,1156},{3465,1141},{3480,780},{3435,691},{3429,842},{3453,727},{3471,590},{3432,1142},{3063,711},{2559,1152},{3459,1154},{3444,1150},{3528,1179},{3516,1194},{3561,1212},{3588,635},{3483,823},{3504,843},{3558,692},{3576,1190},{3519,1166},{3531,865},{3663,473},{3666,1215},{3651,1198},{3639,1207},{3657,775},{3618,868},{3615,788},{3609,1201},{3591,467},{3627,869},{3630,1216},{3573,1189},{3510,597},{3522,1171},{2598,1183},{3564,870},{3507,765},{3633,732},{3543,1182},{3501,495},{3534,714},{3540,1175},{3552,1185},{3486,1218},{3585,632},{3660,702},{3642,861},{3312,1121},{2592,1163},{3597,577},{3495,1164},{3693,872},{3672,772},{2619,1140},{3702,1233},{3690,596},{3711,850},{3717,1238},{3669,1198},{3192,874},{3684,1229},{3708,706},{3675,638},{3750,820},{3738,1242},{3741,878},{3729,1244},{3021,860},{3762,1255},{3771,1258},{3813,858},{2637,1121},{3798,738},{3804,870},{3801,1269},{3816,787},{3780,880},{3810,637},{3792,849},{3777,701},{3789,818},{3846,883},{3864,686},{3018,1279},{3852,1285},{3849,608},{3822,613},{3861,738},{3828,1280},{3831,1278},{3858,1273},{3825,861},{3915,614},{3903,1303},{3894,859},{3267,885},{3921,1306},{3897,557},{3900,641},{3912,402},{3888,569},{3879,1294},{3891,713},{3870,1291},{2667,1323},{3951,1318},{3981,602},{3933,783},{3084,1328},{3987,755},{3978,467},{3948,632},{3993,598},{3990,1325},{3972,888},{3966,640},{3930,841},{3924,1312},{3651,740},{4008,849},
{4032,455},{3672,627},{3999,1332},{4053,711},{3723,726},{4050,639},{4005,1044},{4065,828},{4014,1339},{4023,607},{4026,1340},{3597,748},{4059,1349},{4062,1352},{4041,1346},{2673,1348},{4101,848},{4080,855},{4086,1361},{4068,863},{3450,694},{3270,1140},{3270,716},{4125,496},{4134,704},{4122,787},{4113,1372},{2694,1368},{3444,813},{4131,612},{3942,689},{3297,852},{3021,1279},{4188,849},{4212,1403},{4161,900},{4187,0},{4182,633},{4179,888},{3018,791},{4206,548},{4152,1385},{4140,1382},{4200,726},{4203,816},{4191,1399},{4170,604},{4233,1410},{4221,1408},{4248,582},{4251,1415},{4215,689},{4236,1096},{3045,474},{4290,701},{4266,1171},{4284,906},{4257,874},{4296,876},{4287,899},{4260,1421},{4275,500},{4301,0},{4269,1424},{4302,870},{4293,700},{4338,787},{4326,639},{4320,1441},{4329,872},{4308,473},{4332,1445},{3840,1437},{4314,689},{4353,746},{3672,733},{4356,908},{4347,876},{4368,1458},{4350,402},{4365,870},{4359,1454},{4344,778},{4380,564},{4377,867},{4398,797},{4395,883},{4386,1463},{4404,715},{4236,820},{4401,492},{4416,624},{4428,569},{4425,1474},{4413,858},{4452,625},{3906,1147},{4443,1478},{4437,1480},{4458,639},{4431,1487},{4455,1483},{2715,1490},{4476,591},{4113,537},{3258,708},{4479,701},{4494,861},{4485,1491},{2730,1489},{4491,1365},{4488,598},{2733,1488},{4482,733},{4515,913},{2742,1507},{4530,625},{4107,491},{4500,640},{4533,731},{4512,643},{4524,805},{2745,1512},{4545,874},{4557,1517},{4566,639},{4542,768},{4560,816},{4563,855},{3561,844},{4590,638},{4593,643},{3657,1108},{4569,1031},{4587,499},{4473,1171},{4584,874},{4581,695},{3045,1096},{3297,1279},{4572,624},{4575,539},{3594,1319},{2748,1526},{4623,540},{4638,1545},{4596,1543},{4605,1533},{4602,632},{4614,867},{4617,1540},{4608,1537},{4668,838},{4665,876},{4644,918},{4659,1554},{4647,867},{4650,1551},{4683,1319},{4677,1558},{3477,1212},{4107,1044},{4686,1359},{4698,548},{4701,921},{4704,1520},{3990,784},{4695,893},{2766,1571},{4728,1577},{4725,496},{4719,1574},{3450,1241},{4734,743},{4752,402},{4746,1585},{4743,533},{4737,1580},{4764,613},{4767,778},{4761,597},{4758,455},{4800,725},{4797,641},{4788,1597},{4770,1591},{4782,557},{4803,884},{4809,1604},{4806,863},{4815,899},{4077,473},{4821,846},{4827,848},{4833,1610},{4842,456},{4005,685},{4473,1618},{4851,550},{4845,791},{4839,710},{4836,867},{3726,1622},{4869,893},{4875,930},{3402,684},{4881,825},{4884,490},{4506,1560},{3411,461},{4896,1633},{3192,1562},{3987,810},{3615,1174},{4680,722},{4890,825},{4914,687},{4920,1637},{4917,787},{4908,1635},{4902,586},{3375,775},{4938,890},{4944,640},{4935,848},{4941,518},{4947,728},{4950,715},{3033,844},{4506,717},{4965,1656},{4953,495},{3357,829},{3363,1470},{4961,0},{4971,934},{4977,731},{5001,855},{5007,602},{4689,587},{4974,1086},{4998,550},{4992,860},{4986,1661},{5004,858},{4980,728},{5025,1672},{5013,1670},{3369,520},{5019,632},{5034,716},{3522,716},{5049,720},{5046,843},{4383,567},{5061,1685},{5067,1688},{5052,740},{3663,870},{5079,1694},{5085,868},{5091,1696},{3783,1692},{5097,937},{4410,1026},{5100,1698},{4131,775},{5118,597},{5106,550},{5109,799},{5112,557},{5145,819},{3930,1069},{4113,1557},{5157,1714},{5154,860},{5151,1716},{5130,512},{5139,883},{5127,874},{5133,876},{5175,858},{5166,1723},{5163,820},{5181,815},{5187,1730},{5172,567},{5184,827},{4548,1086},{3981,564},{5193,812},{5211,821},{3429,744},{4236,692},{3621,841},{5208,632},{5202,738},{5205,1370},{5142,733},{5232,788},{5214,868},{5238,942},{2823,1743},{5226,689},{5235,868},{5280,1759},{5259,943},{5274,641},{3408,598},{5262,872},{5265,761},{3648,684},{5283,1208},{3063,694},{5304,745},{5301,400},{5289,1771},{5310,540},{5295,792},{5319,883},{5295,1460},{4776,822},{5322,1776},{5334,772},{5343,760},{5340,638},{4671,581},{4410,1373},{5349,1782},{3906,1272},{5355,874},{5361,796},{3621,873},{4032,703},{5373,1789},{4383,1618},{5376,710},{5379,817},{3450,581},{5391,893},{5382,690},{2832,1795},{5388,888},{3837,727},{5403,1800},{5409,1804},{5415,874},{3723,1808},{5286,1615},{5421,1809},{5418,608},{5430,797},{5442,720},
{5448,945},{4671,1235},{5454,643},{5451,828},{5472,159},{5460,624},{5463,1819},{5469,1822},{5475,1828},{5481,1826},{5490,1829},{5496,870},{5507,0},{4164,157},{5502,1833},{3984,826},{5511,597},{5517,162},{5520,827},{5526,148},{5531,0},{4089,158},{5535,539},{5538,855},{3312,1295},{5532,870},{2784,1777},{5541,697},{5544,1850},{5556,848},{5553,1849},{5559,777},{5562,884},{3783,1160},{5568,1855},{3651,1811},{5574,705},{5571,624},{2865,1859},{5601,1865},{3342,1425},{5580,731},{5583,706},{5589,956},{5592,1862},{3768,1838},{4845,694},{5610,629},{5604,1869},{5619,785},{5616,643},{5637,798},{5628,1875},{5634,1880},{4683,1328},{3597,1618},{5646,863},{4569,712},{4383,1051},{5643,718},{5670,802},{5667,776},{5664,640},{5661,843},{5658,1884},{5676,959},{5685,782},{5694,1896},{5691,1899},{5703,1902},{5715,872},{5730,574},{5721,1912},{5724,1906},{5733,632},{5727,1904},{4005,881},{4974,1295},{5751,476},{5211,797},{5742,1915},{5748,747},{5766,737},{3438,1069},{5763,756},{5754,1919},{5775,461},{5772,687},{5769,496},{5778,1927},{5787,1930},{5793,964},{5799,1932},{5805,1934},{5808,613},{5811,1939},{5820,814},{5823,863},{5016,627},{5835,1946},{5796,1944},{4709,0},{5829,1942},{3672,727},{5076,775},{4854,1808},{5841,876},{5844,641},{5853,826},{5850,1949},{5856,794},{4401,722},{5871,1956},{5862,875},{3981,578},{5865,1566},{5874,740},{5877,708},{2901,1961},{5889,1962},{4680,760},{5901,812},{5892,637},{5904,745},{5898,1965},{3093,784},{5913,1970},{2907,1545},{4473,1369},{4470,779},{5919,682},{5916,574},{5949,799},{5937,693},{5946,828},{5931,402},{5922,810},{5925,747},{5943,637},{5958,690},{5952,1985},{4889,0},{5964,971},{3213,627},{4308,1136},{3768,780},{5970,643},{5976,1991},{5985,1998},{5979,1994},{5883,625},{3513,1311},{6003,2002},{6009,587},{6000,702},{6024,845},{6027,674},{4116,578},{6033,2010},{6375,997},{6357,169},{4569,1158},{6045,888},{6048,2014},{6051,569},{6066,2021},{6060,2023},{3489,899},{6057,2018},{3561,1279},{5331,765},{6078,2025},{6093,2032},{6087,783},{6105,597},{6102,883},{6108,2028},{6114,2037},{6120,730},{6129,739},{6123,937},{2940,2047},{6135,2046},{4548,1311},{3357,1377},{4266,1272},{2598,1028},{6153,2052},{6171,792},{6168,2055},{6162,782},{6159,883},{3213,765},{6177,982},{6192,884},{6189,641},{6180,899},{6195,768},{6204,2071},{6201,2066},{4962,708},{6219,748},{6216,884},{6222,984},{6228,986},{2955,1281},{6231,987},{6234,757},{6240,777},{6246,2081},{4278,1212},{5295,1372},{6252,686},{6267,2085},{6258,2087},{6273,872},{6276,681},{6282,574},{6285,828},{3513,846},{6291,990},{6300,849},{6297,701},{2964,1182},{6294,989},{6288,798},{6303,991},{6306,548},{6309,2104},{4266,813},{6324,2109},{6318,876},{3045,1094},{6330,785},{6333,992},{3369,1386},{6336,793},{6351,856},{6342,2113},{5076,818},{3420,1328},{3369,1883},{6369,859},{508,2119},{6362,0},{6366,2121},{6255,689},{6378,2128},{6387,2127},{6432,2140},{6462,548},{6417,2135},{6474,822},{6465,1067},{6438,1062},{6423,818},{3213,2143},{6459,550},{6414,2145},{6471,577},{6426,578},{6468,824},{6390,2134},{6393,1057},{6396,739},{6408,591},{6447,2152},{6450,1086},{6453,592},{6441,1061},{6399,2137},{6444,1053},{6510,1098},{6531,1115},{3312,2183},{6558,749},{6540,1110},{6534,1125},{6519,1099},{3357,2163},{6543,2179},{6504,1103},{6546,1123},{6390,2166},{3270,2172},{6501,2161},{6492,2171},{6561,1126},{6486,2184},{6477,2175},{6495,2160},{6555,2176},{6594,2200},{6579,498},{6573,1137},{6606,707},{6582,2195},{6564,2190},{6588,2205},{6612,2206},{6621,2201},{6636,578},{6624,548},{6627,581},{6639,1147},{6657,1200},{6666,1208},{6678,2223},{6663,2225},{6654,835},{6648,2217},{6642,682},{6645,2220},{6780,2261},{6747,2252},{6762,498},{3705,2246},{6801,2265},{6639,2231},{6750,2251},{6768,2259},{6771,875},{6720,755},{6789,2262},{6765,608},{6711,2228},{6696,2258},{6708,2229},{6729,834},{6744,2247},{6726,683},{3696,2244},{3681,2239},{6723,2266},{6714,1226},{6705,2233},{6702,2230},{6840,1241},{6813,2272},{6810,877},{6831,846},{3753,2276},{6807,689},{6819,1245},{6837,1256},{6822,1249},{6846,2283},{6855,1261},
{6843,1265},{6876,2288},{6879,843},{6891,1281},{6882,2296},{6573,2295},{6870,2157},{6867,2287},{6894,824},{3438,2291},{6915,1302},{6921,2306},{3876,2303},{6903,2302},{6900,1289},{6927,1166},{6924,2299},{6957,2316},{6945,1320},{6960,1086},{6498,846},{6939,1049},{6933,2312},{6930,1309},{6954,761},{3300,2254},{6966,2323},{6978,2324},{6975,1334},{6999,1343},{7002,1345},{6984,2329},{6981,1337},{7053,2350},{7044,1366},{7011,1358},{7017,710},{7041,1365},{6798,1359},{7023,2343},{7026,856},{7014,1357},{7035,1364},{7059,2352},{7047,788},{7032,602},{7071,1369},{6729,2354},{4110,2150},{7074,2359},{6579,707},{6774,741},{7101,1392},{7092,1389},{7083,1381},{7086,1383},{7080,782},{4158,2365},{7098,1391},{7131,1409},{4242,2381},{7116,2371},{7137,839},{7134,2382},{7125,721},{7155,904},{7170,905},{7167,748},{7161,1426},{7173,807},{4305,2392},{6636,537},{7179,2397},{7188,578},{7206,835},{6537,1219},{7203,1137},{2598,2395},{7184,0},{7212,1447},{7224,1457},{7227,2405},{7230,2411},{3171,2137},{7257,2418},{7182,106},{4158,2357},{7245,813},{7239,1138},{7260,2412},{7263,1464},{7209,754},{7281,640},{7278,1125},{6489,754},{7185,781},{7275,1470},{7269,1473},{2400,2429},{7290,473},{7206,2189},{7296,498},{7299,829},{3312,2437},{7305,2436},{7314,2439},{7329,1060},{7320,1499},{7353,1513},{7347,1509},{7326,1503},{7332,1506},{7341,2450},{7380,1518},{7365,467},{6516,2456},{7371,2454},{7401,1099},{7383,2465},{7392,2150},{7389,703},{7398,904},{6477,751},{7404,2469},{7443,2478},{7425,2474},{7416,1542},{7437,1544},{7413,498},{7410,881},{7446,919},{7451,0},{7455,2486},{7476,2493},{7137,791},{7470,2491},{7482,833},{7485,1560},{7449,111},{7494,2499},{7488,2365},{7509,2502},{7512,785},{7503,1572},{3906,2461},{7545,2465},{3498,2512},{7533,516},{7203,1216},{7530,2437},{7554,1598},{7548,1593},{7551,1595},{7572,1606},{7560,2521},{6534,814},{7578,2527},{7584,818},{7587,812},{7596,2531},{6951,1199},{7605,2534},{7599,1624},{7611,1621},{7608,1620},{7614,2539},{7635,1631},{7623,564},{7629,549},{7650,931},{7647,2547},{7659,1641},{7656,747},{7677,744},{7665,2554},{7689,1652},{2712,2298},{7692,933},{7683,1386},{7686,2320},{6660,1654},{3441,2565},{7701,1665},{7707,1663},{7713,1406},{7710,772},{7749,936},{7731,1677},{6393,2305},{7746,1680},{7728,1679},{7722,2580},{7719,1674},{7767,1691},{7758,1686},{7764,1690},{7752,608},{7776,886},{7785,1701},{7812,1707},{7761,2221},{7791,2598},{7803,1561},{7809,1330},{7806,1705},{7788,632},{6957,1205},{7824,1712},{7821,2606},{7845,2617},{7833,1726},{7842,2613},{6519,1171},{7827,1720},{7863,1422},{7875,703},{7872,1733},{7881,1732},{7866,694},{7869,1426},{7905,2633},{7893,794},{7902,1747},{7896,714},{7884,2629},{7890,1741},{7911,1749},{7908,1752},{7926,1756},{7923,1757},{7938,884},{7944,2647},{7932,1762},{7953,1769},{7947,1764},{7950,2291},{7959,1772},{7962,2655},{5145,2512},{7974,1775},{5331,2189},{7542,544},{7983,1779},{7986,2663},{7992,1784},{6717,476},{8001,1786},{8007,1788},{8013,1790},{8019,1053},{7299,685},{8025,1798},{8034,2677},{8037,2680},{8028,1799},{8043,640},{2466,2463},{8055,1490},{8052,1812},{8058,1813},{8067,2688},{8061,759},{8079,765},{8087,0},{8091,2696},{8097,2700},{7620,1672},{8103,1325},{2619,2693},{8139,723},{8145,2714},{8151,839},{8148,1158},{6807,684},{7683,759},{7305,2722},{6927,797},{8172,2725},{8169,702},{8181,2728},{8205,2734},{8196,1871},{8187,2730},{8193,2733},{8211,779},{8208,1874},{6429,2739},{8226,1883},{8229,2312},{8238,2745},{7398,1578},{8241,2368},{8250,1891},{8259,473},{8262,1894},{7797,1224},{8229,1147},{7008,1207},{8256,2751},{8277,2758},{8271,1903},{8289,2766},{8292,2761},{2532,2429},{5739,2765},{7380,1563},{8301,841},{8310,2772},{8307,1920},{8325,1397},{8322,2590},{8241,2716},{8331,1928},{8337,2778},{6408,1359},{7278,544},{8346,2781},{8349,2784},{8355,1938},{8361,2788},{6840,544},{6750,1705},{7182,673},{8367,830},{8388,2795},{8382,607},{8370,2793},{4776,2463},{8400,2798},{7368,2430},{8403,703},{3207,2294},{8406,966},{8418,2804},{8424,1960},{8436,968},{8442,1969},{3885,2813},{8448,788},{8451,954},{8175,2753},
{5940,2821},{3411,2397},{6693,2296},{8460,481},{8313,1198},{7449,969},{8484,1989},{8475,2824},{8490,972},{8505,712},{7809,800},{8169,685},{8502,455},{8514,2837},{8520,2841},{3258,2739},{8526,1159},{8535,2005},{8532,2004},{8538,2354},{8541,103},{8555,0},{198,2851},{8556,2013},{4548,2143},{8562,2853},{8139,2425},{8577,2855},{8568,2858},{6912,1562},{7188,685},{3267,2810},{8583,2033},{8595,2866},{8592,2039},{8553,28},{7935,627},{7932,1033},{8607,2042},{8610,2048},{8619,2049},{8625,759},{7125,2460},{7773,1762},{6444,839},{7866,1219},{8649,826},{8637,983},{8643,2882},{7296,1766},{3075,2565},{8655,1096},{8658,824},{8226,2515},{8664,2070},{8126,0},{4554,2428},{6513,885},{8451,2620},{8676,2075},{8403,1808},{8685,2896},{370,2897},{8697,2083},{6429,1051},{6747,2213},{7008,544},{8709,2088},{7167,742},{5331,2722},{8658,853},{8142,696},{7482,761},{6750,1174},{2559,2909},{8745,2913},{8742,2912},{352,2911},{346,2917},{7875,592},{8754,2105},{8760,2107},{8763,2922},{8769,1838},{6624,735},{364,2925},{7104,839},{8781,2115},{5433,2739},{7065,1460},{8727,2318},{6885,1426},{8804,0},{8808,2937},{6837,717},{8814,2939},{8850,1091},{8841,1105},{8829,1094},{8874,2962},{8871,2959},{8847,2952},{8844,2951},{8868,699},{8862,2961},{8859,2941},{8826,2169},{8820,836},{6522,2945},{8865,1107},{8838,801},{8832,2960},{8907,2965},{8940,2979},{8919,455},{8901,2189},{8931,2972},{6591,2974},{8889,2964},{6576,2970},{8898,1130},{8904,1131},{8952,577},{8970,2991},{8985,2224},{8982,1202},{8979,1193},{6681,2992},{9006,3000},{9009,3001},{8991,2996},{8997,2998},{9051,3018},{9021,775},{9063,1253},{9066,3020},{9057,1252},{6834,3025},{9069,3024},{9045,3016},{9081,3026},{9015,3004},{6825,3014},{9039,1248},{9027,3008},{9018,1240},{9036,3010},{9099,3034},{8859,1041},{9090,2284},{8856,1235},{9084,1262},{9093,3032},{9129,2304},{9144,3047},{9126,3041},{9132,3046},{9120,1295},{9147,2317},{9162,1321},{9153,3052},{9165,1069},{6963,3053},{9174,2331},{9177,872},{9192,2336},{9168,1261},{9180,2330},{9189,456},{9186,2335},{9213,2346},{9198,2340},{9201,3065},{9231,751},{9237,1373},{9240,1044},{3408,3076},{9219,2355},{9252,1379},{9249,1376},{7068,2962},{9225,1174},{9267,1398},{9261,3086},{9273,2376},{9288,1406},{9276,2373},{9285,1413},{9282,2380},{9291,2384},{9303,570},{9294,2386},{9309,625},{9297,1311},{9321,2399},{9312,1325},{9324,2403},{9318,1439},{9348,694},{9336,612},{9225,2939},{9357,2414},{9374,0},{9375,1049},{9378,481},{9381,2422},{9387,2424},{9393,760},{9408,2431},{9402,1482},{9399,497},{9405,3132},{7302,3138},{9420,777},{9417,2134},{9426,1502},{7338,3141},{9438,2453},{9444,3147},{9435,2452},{9165,1086},{9447,1329},{9462,3153},{9477,704},{7419,3158},{9480,3161},{7428,3157},{9495,2484},{9501,2487},{9498,2489},{9519,705},{9516,3174},{9525,1564},{9534,3179},{9533,0},{9546,2509},{9549,1583},{2556,2967},{7524,3181},{9564,2519},{9561,748},{9558,1592},{9552,925},{9573,2522},{9582,1608},{9585,836},{9591,1616},{9597,1626},{9612,852},{9609,1026},{9606,1470},{9393,780},{9603,2542},{9615,2548},{9621,1642},{9633,1643},{9627,2558},{9624,2557},{9636,2560},{9126,1373},{9654,1177},{9651,784},{9657,564},{9648,2568},{9660,935},{9645,772},{7698,2996},{9663,2579},{9672,1681},{9666,2581},{9687,3228},{9675,2587},{8823,1012},{9696,1241},{7770,3235},{9699,2593},{9120,3041},{9702,2594},{7800,3236},{7797,3153},{9717,1708},{9714,2605},{9726,788},{8853,1103},{9000,795},{9735,2610},{9747,2619},{4548,3248},{9765,3248},{9774,777},{9762,1739},{9783,2639},{9789,3264},{9780,1750},{9006,1140},{7935,3015},{9795,2643},{9798,1160},{9813,788},{2556,3270},{9807,1766},{9816,2652},{7977,3277},{9834,2660},{9837,1766},{9678,1158},{9852,727},{9849,2666},{9858,905},{9861,2672},{9864,2674},{9867,786},{9879,2682},{9873,759},{9228,1578},{9882,2541},{9885,1406},{9894,2690},{9888,1815},{9891,2175},{9903,774},{9915,834},{9918,1838},{9921,1841},{9351,136},{9510,140},{9930,2718},{9933,953},{9927,3308},{6519,3012},{9240,2183},{8892,2399},{9942,3312},{9939,1866},{9951,499},{9948,3315},{9954,1160},{9969,2740},{9558,612},{9972,2741},
{9807,1406},{9987,3330},{9993,2756},{10008,493},{10002,1061},{10011,3333},{9858,498},{8838,1786},{10020,1159},{10026,1221},{10032,690},{8889,2771},{10041,2776},{10047,961},{10044,2780},{7803,3297},{10050,963},{3267,3270},{8358,3357},{4554,3358},{10080,1654},{10083,2792},{9594,1295},{10092,1953},{10089,2799},{10086,2797},{9237,2562},{10113,2803},{2559,3147},{10119,2809},{10125,717},{10122,1562},{10128,703},{8457,3181},{10134,3379},{10131,1976},{10149,2823},{10143,3382},{3498,3232},{10155,2832},{10164,905},{10167,1996},{9201,1325},{10173,1997},{10185,2246},{10191,3398},{9705,834},{8049,3300},{9954,3214},{10202,0},{10197,2848},{10422,2124},{10204,28},{4119,3300},{9093,2415},{10056,2173},{10218,581},{7398,3149},{10227,2027},{10230,2030},{10236,2867},{10242,2868},{9708,1786},{124,3415},{10254,2871},{10248,2044},{10257,2872},{9876,1675},{10263,2050},{10269,2058},{10287,2061},{10278,2062},{10281,2884},{10125,1578},{10293,3430},{10299,2069},{9606,1216},{10314,3437},{9306,2650},{10317,2894},{9324,812},{10332,1146},{10329,2900},{10341,2904},{8844,1256},{10344,2090},{9798,1561},{10350,2093},{10122,2623},{10356,1055},{10380,2919},{10389,2924},{9585,2771},{10398,2116},{8778,3464},{10401,2929},{9576,2701},{8796,3470},{10208,0},{10467,1140},{10449,2203},{8946,3488},{8928,3491},{10452,2978},{10428,1133},{10443,2975},{10440,3479},{10461,2981},{10434,2199},{8913,3477},{10455,3486},{10446,3490},{10476,2988},{10485,2210},{10482,2983},{10491,2986},{10473,2987},{10500,1158},{10494,2985},{10503,2211},{10515,2245},{10518,2253},{10521,2268},{10512,2264},{10530,3511},{10524,3509},{9033,3475},{10569,3036},{10542,3515},{10557,3512},{10548,2286},{9087,3513},{10560,3035},{10551,3518},{10575,3521},{10566,3524},{9114,3529},{10581,3530},{10593,3532},{10584,2135},{9150,3536},{10602,2314},{10599,1315},{10605,1319},{10611,1314},{10617,2332},{10626,3540},{10623,1025},{10629,3544},{10638,3545},{10641,3068},{10656,3074},{10653,1212},{10674,3560},{10662,2368},{9264,3559},{10683,3090},{10659,2363},{10671,779},{10668,2246},{10686,2383},{10689,3480},{10701,3102},{10704,1319},{10698,1171},{10695,1427},{9315,3570},{10716,751},{3297,3571},{10731,2406},{10722,3110},{10728,3113},{10698,3122},{10740,2316},{10752,1469},{7284,3585},{10761,797},{10770,1066},{10779,2445},{10788,2459},{10803,1272},{10800,2462},{10794,1094},{9111,3597},{10815,1552},{10809,1547},{10812,2488},{10827,3608},{10836,2505},{10833,2500},{10830,1570},{10500,2513},{10854,2514},{3438,3615},{10848,1007},{10857,3189},{10866,2523},{10863,801},{10872,2530},{10713,3198},{10881,2544},{10887,2551},{10890,1495},{10893,753},{10902,3210},{10911,3636},{10905,2462},{10914,3214},{9669,3642},{10923,1676},{10932,2575},{10941,3226},{10944,2585},{7194,3652},{10953,2591},{10965,1026},{10959,473},{10962,776},{10968,1158},{10974,3244},{9729,3659},{10986,2618},{10983,2616},{10995,3252},{10992,782},{3078,3652},{10989,1069},{11001,1205},{11004,1748},{11007,1751},{11010,2638},{11019,866},{11031,1329},{11037,3274},{11040,2656},{11052,3280},{9846,3643},{11058,2668},{8010,3688},{11070,3290},{11073,1802},{9876,3626},{5433,3692},{11079,784},{10878,3300},{6429,3552},{11097,2692},{11094,2691},{11100,2702},{11106,2707},{11124,2719},{11121,2720},{11118,2721},{8178,3709},{11145,3320},{11142,2738},{11148,1877},{11154,784},{11157,2621},{10824,2428},{11160,2748},{11163,2760},{11169,2762},{11181,761},{11190,2303},{11187,3345},{10911,2967},{11199,3351},{11205,2616},{11211,3353},{10755,1096},{3021,3529},{11217,1436},{319,3741},{11232,3367},{11226,2497},{11238,3368},{11157,1808},{11250,1978},{11256,2822},{11262,2829},{11259,1987},{11271,2833},{11268,3387},{334,3759},{11019,1314},{11103,2701},{11280,2836},{11289,1999},{11283,2839},{11292,974},{10941,3661},{11301,3766},{11310,2849},{11454,34},{11319,3774},{9516,3616},{11328,2024},{3633,3692},{11334,2862},{11337,2863},{11340,1311},{10950,1658},{11361,1211},{10998,1089},{11364,2878},{11190,1562},{11229,2495},{11367,2880},{11370,2887},{4974,3597},{11385,2889},{11382,2890},{11388,2891},{11394,3440},
{10845,1811},{10335,3572},{3621,3663},{11415,2906},{8961,3609},{11421,2907},{11418,3451},{11424,3454},{10425,3453},{11427,2916},{10701,2375},{11439,2928},{11265,680},{10431,954},{11448,3468},{11313,2850},{11892,461},{11460,3829},{11481,3499},{11475,3830},{11493,3496},{11478,3824},{11484,2989},{11466,3819},{10479,3821},{11469,2945},{11499,1204},{10506,3838},{11508,3835},{11502,3503},{11511,3832},{11529,3842},{11520,3841},{11538,3526},{11553,3039},{11544,3037},{11550,3853},{11547,3854},{11541,3855},{11571,3856},{11586,3057},{11583,3860},{11589,3538},{11592,3061},{11598,3865},{11601,3548},{9246,3870},{11604,844},{11607,3078},{7110,3872},{11625,3873},{11634,1418},{11631,3093},{11652,3882},{11649,2398},{11655,1064},{9333,3887},{11658,3109},{11664,3114},{11670,2416},{11667,2143},{11673,2417},{11679,3130},{11682,1026},{11685,1426},{11595,3589},{11691,2448},{11688,2441},{11541,1516},{11703,3602},{9468,3900},{11709,2480},{11715,3169},{11730,2506},{10839,3908},{11742,3913},{11733,3185},{9576,3916},{11745,1007},{11751,2525},{10884,3920},{11763,2556},{11769,1644},{11775,3639},{7734,3915},{10938,3927},{11784,3230},{3033,3930},{11796,2938},{11799,2385},{11805,3241},{11814,3936},{11820,2612},{11550,1160},{9753,3941},{8895,3836},{11832,1740},{11838,3490},{11841,3262},{11850,2232},{11847,3268},{11853,3675},{11856,3678},{11862,2657},{11865,3281},{11868,3685},{3132,3959},{11880,2683},{11886,3694},{11796,3531},{11895,1705},{11901,1319},{11898,2698},{11718,1658},{11916,954},{11913,1436},{11910,1658},{11604,1461},{7284,3840},{9975,3975},{11928,2744},{11922,1705},{11934,460},{11931,1885},{11937,2182},{11460,3148},{11940,1900},{11943,3338},{11946,3343},{11955,3346},{11949,2773},{9219,3852},{10056,3848},{11964,3354},{11970,3359},{6807,3991},{11976,3740},{11229,3823},{7308,3930},{9846,3972},{11682,1217},{3153,3967},{11991,1090},{11994,2826},{11880,3755},{11997,3380},{12003,2831},{11760,4003},{11907,680},{12030,2843},{12033,3768},{12048,3775},{11850,2963},{12051,3514},{8964,3835},{12063,1011},{12066,836},{11772,1811},{11526,3016},{12072,2813},{12078,3424},{11754,1518},{12081,3425},{10308,3885},{12099,2893},{11829,3388},{11571,3991},{12105,3581},{12108,3446},{12111,3804},{12123,2908},{11556,3012},{12027,3255},{11511,2969},{4974,4044},{11754,3811},{8793,4047},{12144,3469},{11433,4044},{12180,4056},{12165,4054},{12159,3839},{12171,4059},{12174,4052},{12192,4061},{12195,4062},{11535,4067},{11532,4066},{11556,4068},{12210,3859},{12219,3045},{12216,4069},{12222,1313},{12231,3070},{12225,4076},{12234,3069},{12237,4075},{12240,3081},{12243,3555},{11613,4082},{12252,3876},{12258,2388},{11643,4085},{12261,1211},{12270,3115},{12264,3575},{12279,3578},{12276,1461},{12273,3118},{12285,3892},{12294,2387},{12297,3137},{12300,3143},{6696,4101},{12306,3150},{12312,3164},{12315,3162},{12318,3168},{12321,2497},{9297,4092},{10851,4073},{12330,3620},{12339,4114},{12336,3196},{12345,3922},{12348,3213},{12354,3645},{12360,3929},{12366,3931},{12363,3650},{12369,3237},{12375,3660},{12378,3247},{12384,3942},{7878,4061},{12390,3502},{12168,3945},{12393,2640},{12399,3267},{12402,3674},{12405,3041},{12411,3275},{12417,1314},{12420,3285},{11883,4141},{12426,3695},{12429,3696},{12381,3635},{12438,1836},{12441,3303},{12453,4149},{12450,3711},{12444,3710},{12174,3494},{12456,2295},{12468,3327},{12462,4153},{12474,2755},{12471,1893},{12480,3335},{12477,3332},{11016,4162},{10674,4083},{11151,4164},{12507,2791},{10590,4170},{12405,1187},{12513,3745},{12519,3370},{12213,1136},{11472,4061},{12531,2827},{12540,1051},{12537,1044},{12435,3294},{12534,3237},{12543,1461},{12549,3968},{9222,4184},{12549,873},{10209,4101},{12558,2857},{12363,1518},{12486,3291},{8580,4155},{12564,3411},{12054,4187},{12534,4057},{12567,3899},{12573,3417},{12417,1436},{12576,3422},{12588,1033},{12249,3012},{12261,1011},{12219,738},{10908,4061},{12600,2407},{12603,860},{12321,1211},{8730,4206},{12627,1211},{12624,3499},{12540,3074},{12639,3471},{12636,2933},{12153,680},{12189,4216},{12642,4215},{12654,4217},
{12666,4221},{11574,4223},{12672,4225},{12690,3072},{10650,4229},{12684,3082},{12249,4232},{12699,3874},{12702,3879},{12705,3100},{10719,4238},{12720,3120},{12729,4094},{12723,3123},{12732,3583},{12735,3594},{12738,3592},{12741,3595},{12747,3899},{9456,4248},{12750,3854},{12753,1557},{12756,3171},{12762,2997},{12768,3193},{12774,3626},{12771,3625},{12777,4117},{10929,4251},{12783,3231},{12789,3934},{12795,3937},{12798,3250},{12801,4094},{12804,3256},{12810,2981},{12813,4132},{12822,3273},{12801,3551},{12831,2665},{12834,3957},{12708,3529},{12837,3963},{12840,1675},{12843,3697},{12852,1140},{12849,2705},{12855,3713},{11919,4286},{12861,3712},{12864,2983},{8247,4250},{12873,3328},{12885,3339},{12882,3724},{12888,3726},{8304,4217},{11961,4276},{12897,3365},{10098,4223},{12903,4229},{9102,4300},{12906,2143},{12780,1212},{12912,3751},{12528,4305},{12918,3386},{12927,888},{12930,3758},{12663,4243},{12921,704},{12933,4005},{12936,2694},{12828,1099},{10212,4315},{12948,3408},{12954,2846},{12570,4323},{12972,3785},{11358,4250},{12975,1121},{11910,4228},{12978,4194},{11373,4232},{11583,4243},{12987,3550},{12990,1266},{3297,4262},{12747,2232},{12999,2272},{11922,4217},{13005,4043},{13011,2940},{13008,4045},{11877,4284},{11523,4280},{12207,4302},{13032,4219},{13026,4220},{13031,0},{12213,4345},{12678,4346},{13041,4227},{12693,4348},{13047,3085},{7107,4350},{13056,3564},{13059,3569},{3033,4354},{13044,1136},{13065,4089},{13068,3581},{13074,1212},{13077,3586},{13083,3151},{13080,3898},{13086,3155},{13092,3902},{7431,4363},{13098,1563},{13095,4367},{13104,3912},{13107,4114},{13110,2540},{13113,3200},{13116,4260},{12357,4373},{12786,4374},{13125,3240},{13122,3889},{13128,3246},{12807,4378},{11829,4377},{13137,3259},{13143,2949},{13140,3870},{11529,4367},{13146,3276},{8970,4358},{13149,1217},{13155,3559},{13158,4221},{13101,748},{13161,3299},{13164,2694},{13167,4051},{13173,3701},{13170,2706},{13176,3322},{13179,3319},{13182,3321},{13185,3717},{13074,2497},{13191,3722},{13197,3341},{13194,1033},{13203,3731},{12498,4380},{13209,4164},{13218,3994},{13212,3369},{13215,4172},{13224,3025},{13233,3589},{13242,4182},{12018,4391},{7584,4415},{13239,3392},{13248,4007},{5076,4415},{13167,4391},{13257,4015},{13044,3599},{13122,2295},{13260,3174},{12963,4421},{13269,3420},{13233,3014},{13275,2876},{13281,3428},{13131,3791},{13287,4428},{10209,4403},{12993,4432},{13293,1028},{13155,2963},{11358,4356},{13302,2902},{11403,4433},{13260,3407},{13308,3456},{13311,2982},{13317,3192},{13062,3340},{13340,0},{13328,0},{13029,4443},{13337,0},{13331,0},{13341,3549},{1101,4444},{13350,4449},{13053,4448},{12711,4452},{13353,4236},{855,4444},{13362,2407},{13365,3121},{852,4444},{1962,4444},{13374,496},{1968,4444},{12309,4460},{13377,1211},{13383,1295},{13386,3163},{1974,4444},{13395,4253},{1131,4444},{13392,923},{13398,3190},{4707,4444},{13401,3918},{2778,4444},{13407,3632},{1983,4444},{13404,3206},{13329,103},{13410,3489},{4887,4444},{1143,4444},{13416,4264},{13419,2387},{12381,4475},{13422,2620},{795,4444},{11016,4478},{13437,4273},{1146,4444},{13443,4276},{13446,3655},{13452,4483},{13458,4485},{13461,792},{2508,4488},{13467,1831},{13470,3916},{13476,2709},{13464,2687},{11907,4491},{13482,2497},{10914,4495},{9609,4493},{12867,4497},{13488,4155},{13494,1461},{12489,4499},{13353,4369},{13506,4402},{11985,4503},{13518,3996},{13221,4504},{13383,4069},{13521,3748},{13485,2810},{12327,4458},{13524,3390},{11286,4511},{13536,3393},{13539,3394},{12939,4514},{13548,3405},{12951,4517},{13116,4482},{13554,1160},{13557,2464},{13560,3413},{13116,4521},{13425,3525},{12579,4494},{13566,2877},{13353,3975},{13425,2810},{13494,1675},{13572,3971},{13575,3793},{13581,2513},{13497,4524},{13584,4332},{13587,2508},{12606,4530},{13563,3204},{13596,2905},{858,4444},{2010,4444},{9907,159},{13920,4443},{9907,4641},{12489,4524},{13434,3358},{13602,3449},{612,4444},{12543,4460},{1218,4444},{1158,4444},{1116,4444},{372,4442},{12630,4459},{12549,4490},{13611,4338},{1113,4444},{8082,4490},
{1965,4444},{1104,4444},{13320,4452},{13494,4179},{13646,0},{13643,0},{13618,4343},{13625,0},{13617,4444},{13627,4446},{4089,4543},{1962,4540},{13621,4443},{13626,4539},{1104,4539},{13627,4544},{13637,0},{4164,4543},{13634,0},{1104,4540},{13638,3880},{1101,4543},{13329,4540},{1113,4542},{1965,4539},{1968,4540},{852,4539},{9351,4543},{13359,4549},{852,4540},{855,4543},{1968,4543},{13652,0},{13653,3579},{855,4540},{1962,4539},{1101,4539},{1101,4542},{12726,4552},{1104,4542},{13661,0},{13664,0},{1974,4540},{1962,4542},{855,4539},{852,4542},{13670,0},{13665,1501},{1131,4543},{13677,618},{13680,3906},{855,4542},{1968,4539},{9510,4543},{1131,4540},{4707,4543},{13685,0},{1974,4539},{4707,4540},{13691,0},{13686,3909},{13692,2507},{1968,4542},{2778,4540},{1983,4543},{1131,4539},{1974,4542},{13700,0},{13695,529},{4887,4543},{1983,4540},{13701,3919},{13706,0},{4707,4539},{1131,4542},{2778,4539},{4887,4540},{13707,4571},{13712,0},{4707,4542},{1143,4540},{13718,0},{795,4543},{1983,4542},{1983,4539},{2778,4542},{4887,4539},{13724,0},{13719,3227},{795,4540},{1146,4543},{13727,0},{13728,4124},{4887,4542},{13656,836},{13731,2311},{13737,3253},{12387,4578},{1146,4540},{1143,4539},{13742,0},{309,4540},{13440,4581},{13746,4275},{1143,4542},{795,4539},{1146,4539},{795,4542},{13751,0},{13752,4585},{1146,4542},{309,4542},{13758,4384},{13761,3958},{4236,4588},{13767,4144},{13770,4145},{13773,3968},{13776,1675},{13779,4594},{13788,4595},{13791,3326},{13188,4599},{13800,1159},{13803,3984},{13806,2976},{11958,4569},{13809,4168},{5358,4588},{13812,4505},{13818,4303},{13821,1033},{13815,3372},{13827,2811},{13830,3384},{11877,4592},{13770,4389},{13527,4611},{12027,4613},{13842,3858},{13845,3968},{13842,4398},{10221,4616},{12957,4618},{13860,977},{13857,4322},{13863,822},{8622,4560},{12069,4622},{13872,4623},{13878,4426},{13881,2885},{13884,4030},{12981,4629},{13290,4632},{13902,3800},{13695,4273},{13908,2901},{858,4543},{13839,3941},{1158,4539},{2010,4540},{1158,4540},{858,4539},{8133,4543},{13916,0},{1116,4540},{13926,2703},{612,4542},{1218,4539},{13919,0},{1158,4542},{1113,4543},{13842,3987},{13002,4643},{5526,4543},{13932,1199},{801,4539},{1218,4540},{801,4542},{612,4539},{13940,0},{13941,4207},{13946,0},{2010,4543},{858,4540},{13949,0},{1965,4543},{1113,4540},{858,4542},{2010,4539},{13952,0},{1218,4542},{13953,4443},{2010,4542},{12009,4621},{12051,4552},{8988,4571},{13848,3994},{13959,2930},{1965,4540},{1116,4539},{11748,4594},{13967,0},{1965,4542},{1113,4539},{1116,4542},{13973,0},{1101,4540},{1962,4543},{13976,0},{12147,4659},{13980,4441},{14604,4340},{14247,3939},{2010,4661},{858,4662},{13991,0},{13997,0},{13992,4540},{14000,0},{14002,4443},{14634,121},{14002,4879},{14012,0},{14018,0},{14015,0},{14006,0},{14009,0},{13983,4662},{13626,4675},{14023,4443},{14664,115},{14023,4889},{13984,4547},{14030,0},{13987,4677},{14036,0},{1116,4675},{14026,4548},{14025,4661},{13333,4679},{14045,0},{14042,0},{14033,0},{14060,0},{14055,4239},{14048,0},{14051,0},{14053,4443},{14718,106},{14053,4907},{1104,4675},{14066,0},{14063,0},{14070,3128},{14075,0},{14085,4456},{14084,0},{14078,0},{14090,0},{14081,0},{1104,4661},{1101,4675},{14102,0},{14105,0},{14108,0},{14099,0},{14112,2458},{14117,0},{1962,4675},{1104,4662},{14118,1495},{852,4675},{1101,4661},{14129,0},{14121,3907},{14126,0},{14131,4443},{14805,111},{14131,4936},{14138,0},{14135,0},{14144,0},{14147,0},{14154,4109},{852,4661},{855,4675},{14151,4108},{1962,4661},{1101,4662},{14159,0},{14162,0},{14165,0},{1962,4662},{14171,0},{14168,0},{14175,1619},{1968,4675},{852,4662},{855,4661},{14183,0},{1974,4675},{14180,0},{14195,0},{14192,0},{14201,0},{14198,0},{1974,4661},{1131,4675},{14210,0},{855,4662},{14202,3924},{1968,4661},{14214,2572},{14213,0},{14219,0},{2778,4675},{1968,4662},{14231,0},{14228,0},{14222,0},{14225,0},{13413,4745},{4707,4675},{1131,4661},{14243,0},{1974,4662},{14240,0},{4707,4661},{1131,4662},{1983,4675},{2778,4661},{14252,0},{14253,3666},{14256,3257},{13428,4753},{2778,4662},{14270,0},{4887,4675},
{14267,0},{1983,4661},{14276,0},{14277,4136},{4707,4662},{14280,3953},{1143,4675},{14294,0},{14291,0},{14288,0},{14285,0},{4887,4661},{1983,4662},{14298,3682},{795,4675},{1143,4661},{14303,0},{4887,4662},{1146,4675},{795,4661},{1143,4662},{14307,3687},{14306,0},{14310,3689},{1146,4661},{795,4662},{12846,4771},{14319,861},{1146,4662},{14328,4775},{14331,4290},{13794,4778},{14337,4293},{10704,4718},{14340,4297},{13503,4781},{14346,4298},{14349,4167},{14352,3738},{14355,2805},{14358,3747},{14369,0},{14364,4174},{14370,2815},{13230,4791},{14376,4308},{13530,4793},{14382,4008},{14385,3053},{10188,4796},{14391,4571},{13254,4798},{14397,3777},{14400,4320},{14406,4801},{14409,3782},{14412,4424},{14415,4625},{14418,4195},{14421,4197},{14424,3432},{14427,4526},{14430,4630},{14118,684},{14433,4034},{14439,1187},{13905,4812},{13599,4814},{14447,0},{13305,4816},{14459,0},{14456,0},{14453,0},{14462,0},{14465,0},{14474,0},{14471,0},{14486,0},{14477,0},{14480,0},{801,4675},{14493,4645},{14489,0},{12117,4830},{14497,4443},{15243,123},{14497,5082},{14507,0},{14504,0},{14513,0},{14510,0},{14525,0},{14528,0},{14517,4042},{14537,0},{1158,4675},{612,4675},{14534,0},{14540,0},{14543,0},{801,4661},{1158,4661},{14549,0},{858,4675},{14555,0},{13608,4852},{801,4662},{1218,4675},{612,4661},{1218,4661},{612,4662},{1218,4662},{14562,3812},{14565,3225},{13956,4853},{13962,4856},{1116,4662},{1965,4675},{1113,4661},{14576,0},{14573,0},{12552,4859},{1116,4661},{1113,4675},{14585,0},{14591,0},{14588,0},{1158,4662},{2010,4675},{858,4661},{1965,4662},{1113,4662},{1965,4661},{14597,0},{14600,0},{2010,4662},{14607,4339},{14621,0},{14618,0},{15217,117},{14622,4540},{13990,4876},{14642,0},{14649,4673},{14631,4882},{1107,4885},{14660,0},{14672,0},{14663,0},{1125,4885},{14681,0},{14687,0},{14690,0},{13986,4901},{14693,0},{1125,4898},{14709,4096},{14715,4689},{14726,0},{14729,0},{14091,4913},{13071,4912},{14751,4918},{14742,4097},{2736,4885},{14762,0},{14759,0},{14769,4922},{14775,873},{10797,4925},{14675,0},{14792,0},{14786,0},{2736,4898},{9528,4929},{14795,0},{14783,0},{14837,0},{14813,0},{14139,4939},{14820,4716},{1104,4901},{2781,4885},{12765,4942},{14840,0},{14843,0},{14831,0},{14834,0},{1101,4901},{14856,4953},{14855,0},{2781,4898},{14862,885},{14873,0},{14870,0},{14867,0},{14879,0},{14187,4958},{1962,4901},{1140,4885},{14900,0},{852,4901},{14897,0},{14892,4735},{14912,0},{14907,3926},{14906,0},{14913,103},{855,4901},{14927,0},{14924,0},{1140,4898},{14931,4979},{14940,3657},{14915,0},{1974,4901},{14948,0},{14954,0},{14945,0},{14244,4985},{14960,0},{14963,0},{1968,4901},{14966,0},{14969,0},{14615,0},{14262,4992},{14973,4477},{14979,4272},{14990,0},{14996,0},{14985,4757},{14984,0},{1131,4901},{15000,3681},{15005,0},{15006,4138},{15011,0},{4707,4901},{15021,5006},{2778,4901},{15026,0},{15029,0},{15030,3683},{15035,0},{15038,0},{1983,4901},{15044,0},{15047,0},{15050,0},{15053,0},{4887,4901},{15058,5018},{15056,0},{1143,4901},{15062,0},{15068,0},{15065,0},{14316,5023},{14612,0},{14322,5024},{795,4901},{15077,0},{15078,3703},{15081,4161},{15084,4292},{15087,3725},{13500,4954},{11184,5030},{15093,4400},{15096,3734},{15099,3736},{15102,3989},{15107,0},{15108,2807},{15117,4608},{15120,1461},{15123,4002},{15113,0},{15126,4412},{15129,4612},{15134,0},{15135,2006},{15141,4314},{15144,4185},{15399,4050},{13851,5049},{15150,4020},{15153,3781},{13266,5052},{15159,4523},{15162,4028},{15165,3792},{15168,4029},{10701,4912},{309,4901},{15171,3434},{15177,4032},{15174,4031},{15180,2079},{15183,3441},{15186,4531},{15189,3802},{1146,4901},{849,4885},{15192,4637},{15207,5068},{1119,4885},{15198,4204},{15210,4827},{369,5071},{15225,5076},{15233,0},{15234,4040},{15240,4833},{15251,0},{351,5072},{15255,4838},{849,4898},{15261,5086},{1119,4898},{15270,3455},{14529,5089},{14696,0},{14544,5091},{15281,0},{15293,0},{15285,5096},{15278,0},{15296,0},{15302,0},{15306,3461},{801,4901},{15317,0},{15311,0},{15314,0},{612,4901},{15323,0},{15320,0},{15326,0},{1218,4901},{15327,5110},{15333,3814},
{15338,0},{15344,0},{15341,0},{15347,0},{15354,4656},{15348,4860},{15362,0},{15359,0},{1965,4901},{15366,5123},{1113,4901},{1107,4898},{15380,0},{15377,0},{15374,0},{1116,4901},{15383,0},{15389,0},{15386,0},{14601,5130},{2010,4901},{15120,3780},{15398,0},{1158,4901},{858,4901},{15773,0},{16094,0},{2010,5222},{15411,4664},{15416,0},{15417,2374},{15428,0},{14673,5143},{15432,2400},{15435,4881},{15444,4900},{15440,0},{15453,5143},{15452,0},{15458,0},{14704,5153},{15465,3582},{15474,4457},{15468,4915},{15480,3588},{15461,0},{15485,0},{15489,5162},{13671,5166},{13674,5165},{14799,5171},{15512,0},{15504,4934},{15507,5172},{15525,3614},{15536,0},{15549,5184},{15540,4111},{15539,0},{15557,0},{15567,2546},{15566,0},{15573,5190},{15579,4961},{15587,0},{15596,0},{15597,5197},{15590,0},{15606,3640},{15617,0},{15621,4978},{15626,0},{15632,0},{15642,5213},{15638,0},{15663,5220},{15659,0},{15669,3671},{1104,5174},{15672,3948},{1101,5174},{15667,5225},{15677,0},{15687,5227},{15692,0},{15695,0},{15702,5004},{15713,0},{15707,0},{15701,0},{1962,5174},{852,5174},{15722,0},{15726,5241},{15731,0},{855,5174},{15848,0},{15746,0},{15741,5246},{1974,5174},{1968,5174},{14304,5250},{15755,0},{15757,4544},{1131,5174},{1104,5222},{4707,5174},{1101,5222},{15765,3304},{15756,4675},{15776,0},{1962,5222},{15769,5257},{1116,5256},{1983,5174},{2778,5174},{15782,0},{1965,5256},{855,5222},{1113,5256},{1104,5256},{1101,5256},{1962,5256},{15785,0},{15788,0},{15791,0},{15795,5264},{15798,3732},{15803,0},{15804,3355},{15807,3356},{1143,5256},{14361,5271},{15816,3749},{1146,5256},{795,5256},{15819,4175},{15112,5274},{15824,0},{15828,3701},{15833,0},{15138,5279},{15828,2694},{15840,4012},{15843,4013},{15849,4019},{15854,0},{15857,0},{15858,3784},{15861,4025},{15866,0},{15869,0},{10306,5290},{15872,0},{15873,4328},{13479,5293},{15884,0},{15887,0},{15888,2898},{15893,0},{15902,0},{15894,4203},{15899,0},{15905,0},{15908,0},{15914,0},{15909,4822},{15915,4038},{795,5174},{15918,5074},{15924,5309},{1146,5174},{15932,0},{15933,4205},{15410,0},{15936,2711},{4887,5174},{15947,0},{13419,5293},{15953,0},{15954,4535},{15972,5325},{15969,5322},{1143,5174},{15978,5101},{1116,5222},{1983,5222},{1131,5222},{15984,3462},{15989,0},{16001,0},{15993,5330},{795,5222},{4887,5222},{1113,5222},{4707,5222},{1146,5222},{1974,5256},{16013,0},{1965,5222},{852,5256},{1974,5222},{1968,5222},{2778,5256},{1143,5222},{16017,3815},{16014,4046},{2778,5222},{1158,5256},{801,5174},{858,5256},{16026,5343},{612,5174},{16032,4211},{1218,5174},{855,5256},{1968,5256},{1131,5256},{16041,5346},{852,5222},{2010,5256},{4707,5256},{16046,0},{1113,5174},{801,5222},{1218,5222},{16052,0},{612,5222},{4887,5256},{1983,5256},{16067,0},{16055,0},{1965,5174},{1116,5174},{16059,5354},{16082,0},{858,5174},{1158,5222},{612,5256},{1158,5174},{858,5222},{16083,4538},{15768,267},{15405,5134},{1218,5256},{16091,0},{2010,5174},{15828,4594},{16761,4341},{16224,3649},{16252,4443},{16106,0},{1107,5369},{16112,0},{14676,5371},{1125,5369},{16118,0},{16121,0},{14706,5376},{16131,5378},{16137,4910},{16145,0},{16142,0},{16146,3591},{16154,0},{14703,5385},{16156,5384},{14772,5386},{13389,5389},{16164,3606},{2736,5369},{16173,4938},{16170,3180},{16184,0},{16185,5182},{16191,3623},{14847,5398},{1104,5385},{14184,5400},{2781,5369},{16203,4960},{1101,5385},{852,5385},{14916,5407},{16215,5203},{1962,5385},{16233,4983},{16242,5218},{855,5385},{1968,5385},{1140,5369},{16253,0},{16257,3676},{16256,0},{16265,0},{16262,0},{1974,5385},{15666,5422},{1131,5385},{16276,4343},{16267,5233},{16266,5429},{16281,5239},{16275,4444},{4707,5385},{16295,0},{2778,5385},{16292,0},{16297,4446},{16296,4539},{16307,0},{1983,5385},{801,5436},{16319,0},{1218,5429},{4887,5385},{16322,0},{16325,0},{16326,5253},{16334,0},{16337,0},{16340,0},{16309,4870},{1104,5422},{16343,0},{16331,0},{16308,5256},{16346,0},{1143,5385},{1104,5429},{16349,0},{1101,5422},{16355,0},{16358,0},{15768,5365},{1113,5436},{16364,0},{16361,0},{16096,5260},{1101,5429},{1962,5422},{16367,0},
{1113,5365},{1116,5456},{852,5422},{2010,5456},{1116,5365},{1965,5436},{16373,0},{16379,0},{16376,0},{1104,5436},{1962,5429},{16095,5456},{1101,5436},{1965,5365},{16382,0},{1962,5436},{1113,5456},{1104,5365},{16385,0},{1104,5456},{1965,5456},{1101,5365},{16388,0},{16390,5263},{16389,5465},{16398,4165},{16403,0},{1143,5436},{1146,5429},{16412,0},{16409,0},{795,5436},{16415,0},{16418,0},{309,5436},{16421,0},{795,5365},{1143,5456},{4887,5456},{1146,5436},{1143,5365},{16424,0},{16427,0},{16428,4409},{15769,5477},{1146,5365},{16434,5275},{15768,5477},{16437,4490},{16096,5277},{309,5456},{15831,5365},{16443,3765},{13545,5482},{16451,0},{16454,0},{612,5436},{1218,5456},{16457,0},{16459,124},{16462,124},{372,5487},{16466,0},{372,5486},{16469,0},{1146,5385},{16474,5288},{8124,5493},{16477,5292},{15876,5492},{16482,4631},{12594,5495},{16473,5490},{16492,5288},{16489,5153},{16488,5385},{15864,5497},{13899,5498},{795,5385},{16503,3803},{15195,5503},{849,5369},{16526,0},{15219,5505},{1152,5369},{16523,0},{16535,0},{16547,0},{16551,5088},{16550,0},{16554,2158},{16557,5094},{16562,0},{16541,0},{16572,5327},{16571,0},{2778,5422},{801,5385},{1974,5422},{16577,0},{16580,0},{4707,5429},{1974,5436},{16586,0},{16583,0},{852,5436},{2778,5429},{1983,5422},{1143,5422},{1968,5429},{1116,5422},{16587,5334},{16598,0},{16601,0},{1131,5422},{1974,5429},{4887,5429},{2778,5436},{16604,0},{16607,0},{612,5385},{1143,5429},{795,5422},{1131,5436},{16610,0},{16613,0},{1116,5429},{1113,5422},{855,5436},{1983,5429},{4887,5422},{855,5422},{852,5429},{16622,0},{16619,0},{1131,5429},{4707,5422},{16625,0},{1983,5436},{1218,5385},{16628,0},{1965,5422},{1113,5429},{1158,5436},{2010,5429},{16631,0},{855,5429},{1968,5422},{16634,0},{16640,0},{858,5436},{16637,0},{16643,0},{795,5429},{1146,5422},{16646,0},{1119,5369},{16021,5546},{1116,5436},{2010,5436},{1158,5365},{1965,5429},{16649,0},{16652,0},{855,5456},{1968,5436},{1968,5365},{852,5456},{852,5365},{855,5365},{1968,5456},{1131,5456},{1974,5365},{4707,5365},{4707,5436},{16664,0},{16658,0},{16667,0},{1101,5456},{16670,0},{16661,0},{1962,5365},{1962,5456},{16673,0},{1158,5456},{858,5365},{858,5429},{2010,5422},{16679,0},{1974,5456},{1131,5365},{1113,5385},{16685,0},{4887,5365},{1983,5456},{4707,5456},{16682,0},{1116,5385},{858,5456},{2010,5365},{16691,0},{1965,5385},{801,5422},{612,5422},{801,5429},{2778,5456},{1983,5365},{2778,5365},{4887,5436},{16709,0},{16706,0},{16694,0},{16703,0},{16697,0},{16710,5358},{16713,5131},{16721,0},{16718,0},{858,5385},{1218,5422},{2010,5385},{612,5429},{801,5365},{1218,5436},{16736,0},{16733,0},{16730,0},{1158,5429},{1158,5422},{801,5456},{612,5365},{858,5422},{16739,0},{16742,0},{16743,3817},{612,5456},{16103,0},{1218,5365},{16749,5585},{16754,0},{16760,0},{1158,5385},{16748,0},{17748,3473},{17753,0},{17759,0},{17771,0},{16390,5615},{16773,4875},{16778,0},{16780,121},{16782,4894},{16787,0},{16788,5147},{345,5597},{16794,4911},{363,5593},{15471,5600},{16804,106},{16809,3144},{16817,0},{16820,0},{16821,4926},{16155,5604},{318,5601},{16827,3607},{16824,3904},{16832,0},{15528,5611},{16838,0},{16840,111},{16848,4950},{16853,0},{333,5613},{16847,0},{15582,5620},{16859,0},{1104,5604},{16854,3633},{16865,0},{16868,0},{1101,5604},{16869,4973},{16877,0},{16769,0},{1962,5604},{15648,5626},{852,5604},{855,5604},{16886,0},{16889,0},{16892,0},{16893,4543},{14998,5632},{16898,0},{16910,0},{16913,0},{1974,5604},{1968,5604},{16922,0},{16916,0},{16919,0},{1131,5604},{16925,0},{16931,0},{16934,0},{16940,0},{16946,0},{2778,5604},{4707,5604},{16949,0},{16955,0},{1983,5604},{16967,0},{16958,0},{16964,0},{16988,0},{16991,0},{4887,5604},{17000,0},{17006,0},{17002,2708},{17015,0},{17009,0},{17024,0},{17027,0},{17039,0},{17042,0},{17036,0},{17048,0},{17051,0},{17063,0},{17060,0},{17057,0},{17054,0},{17078,0},{17075,0},{17081,0},{17084,0},{17099,0},{17093,0},{17096,0},{17087,0},{17108,0},{17111,0},{17105,0},{17117,0},{17120,0},{17123,0},{17121,5222},{17132,0},{17129,0},{17137,5035},{17141,0},{17136,5270},
{17146,5037},{17156,0},{17159,0},{17162,0},{17168,0},{17165,0},{15111,5715},{17175,4000},{17183,0},{17189,0},{17186,0},{17190,4417},{17201,0},{17204,0},{17207,0},{309,5736},{2010,5604},{17323,5310},{309,5604},{17221,124},{372,5740},{17231,0},{17237,0},{17239,2708},{8124,5746},{795,5604},{17243,0},{17246,0},{17249,0},{17255,0},{17259,3797},{17256,4199},{17270,0},{17264,0},{1146,5604},{17273,0},{17276,0},{17279,0},{1143,5604},{8124,5667},{17282,0},{16507,5759},{17285,0},{17286,5067},{17291,0},{17283,5174},{17295,5079},{17300,0},{17302,5513},{369,5769},{15957,5770},{17316,3459},{17308,123},{15963,5773},{17301,5775},{15930,5774},{17336,0},{17339,0},{17342,0},{17354,0},{17351,0},{17356,5261},{17372,0},{15783,5785},{17366,0},{17369,0},{17375,0},{17378,0},{17363,0},{17390,0},{17396,0},{17393,0},{17399,0},{801,5604},{17411,0},{17414,0},{17408,0},{17116,5589},{17417,0},{17432,0},{17429,0},{17426,0},{17435,0},{1218,5604},{17438,0},{17453,0},{17456,0},{612,5604},{17444,0},{17441,0},{17465,0},{17462,0},{17486,0},{17480,0},{17477,0},{17489,0},{17471,0},{17474,0},{17494,5545},{16638,5833},{17498,0},{17510,0},{17507,0},{17516,0},{17519,0},{17522,0},{17531,0},{17528,0},{17525,0},{16020,5831},{16792,115},{17543,0},{17552,0},{17546,0},{17540,0},{17549,0},{17555,0},{17591,0},{17582,0},{17570,0},{17558,0},{17561,0},{17567,0},{17564,0},{17594,0},{1116,5604},{17618,0},{17615,0},{17600,0},{17621,0},{17609,0},{17603,0},{17606,0},{17639,0},{1113,5604},{17633,0},{17630,0},{17627,0},{17642,0},{17672,0},{1965,5604},{17663,0},{17651,0},{17669,0},{17645,0},{17666,0},{17654,0},{17657,0},{17660,0},{17205,4615},{1158,5604},{17702,0},{858,5604},{16077,5897},{17705,0},{17711,0},{17714,0},{17717,0},{17708,0},{17741,0},{17729,0},{17732,0},{17738,0},{17735,0},{17216,0},{17219,0},{18606,385},{2010,5966},{17792,0},{17793,4884},{17798,0},{13999,5930},{472,5933},{17802,4904},{17807,0},{475,5937},{475,5939},{16813,5941},{17825,0},{409,5944},{17837,0},{17846,0},{17843,0},{15523,5948},{17847,4941},{409,5950},{17854,5615},{421,5953},{17862,5399},{17853,5956},{421,5957},{17869,5960},{17879,0},{17874,4963},{17882,0},{17886,5409},{17891,0},{17892,103},{17903,0},{17904,103},{17899,4871},{17909,0},{17912,0},{17898,5222},{17919,4997},{14274,5976},{17922,5975},{17931,5424},{17942,0},{17939,0},{17926,5974},{1104,5951},{17954,0},{16288,5925},{17777,0},{1104,5956},{1101,5951},{17964,5434},{17972,0},{16309,5925},{17975,0},{1962,5951},{1101,5956},{852,5951},{17984,0},{852,5956},{855,5951},{1962,5956},{1104,5966},{1101,5966},{1968,5951},{855,5956},{1974,5951},{1962,5966},{1968,5956},{852,5966},{17997,5664},{18002,0},{1131,5951},{1974,5956},{18010,4548},{18006,5450},{18015,6004},{17031,6007},{4707,5951},{1131,5956},{1968,5966},{18036,6011},{18042,5689},{18048,5690},{17088,6020},{18063,5700},{18081,6026},{18084,5966},{18091,4871},{18095,0},{18091,5469},{16407,6030},{18103,5233},{18104,0},{17142,6035},{18110,0},{18112,5716},{18117,6038},{18123,5724},{17148,6037},{18131,0},{18134,0},{18141,6046},{16441,6048},{18144,5480},{17206,6048},{18154,6052},{18156,6051},{18594,5915},{18558,4258},{18238,4945},{18201,3799},{18591,6196},{18600,6199},{18173,0},{18180,4662},{18185,0},{18188,0},{309,6064},{18195,6066},{18206,0},{18215,0},{18009,4661},{18223,6068},{18230,0},{18227,0},{18181,4547},{445,6080},{1983,5956},{4887,5951},{1113,5951},{1116,5956},{18248,0},{1965,5951},{1113,5956},{18236,0},{1146,5951},{795,5956},{16518,6081},{18238,5507},{16506,6074},{478,6083},{16521,6079},{1143,5951},{2778,5966},{309,5951},{18252,5084},{4887,5956},{2778,5951},{4707,5956},{1974,5966},{1965,5956},{1146,5956},{1143,5966},{1116,5966},{1983,5951},{2778,5956},{445,6087},{13314,6088},{18257,0},{1143,5956},{795,5951},{478,6090},{4887,5966},{1113,5966},{18278,0},{18275,0},{4707,5966},{18279,5782},{18285,5786},{1146,5966},{1965,5966},{15783,5956},{18282,5530},{18297,5794},{18303,6102},{18312,5800},{18302,0},{18295,5960},{18332,0},{18324,6106},{18333,6112},{1131,5966},{17421,6115},{17445,6116},{18354,6117},{18362,0},
{18374,0},{795,5966},{18375,6126},{17481,6128},{1983,5966},{17511,6137},{18410,0},{18420,5117},{801,5951},{18432,5845},{18440,0},{855,5966},{18447,5859},{18456,6153},{612,5956},{1218,5951},{801,5966},{1218,5956},{18480,5865},{18488,0},{612,5966},{612,5951},{801,5956},{18495,6168},{1218,5966},{18492,6163},{18515,0},{18510,5566},{1116,5951},{18555,6184},{18549,5894},{18533,0},{18540,5891},{18534,6182},{18563,0},{858,5966},{2010,5951},{858,5951},{1158,5956},{858,5956},{18569,0},{472,6190},{1158,5951},{1158,5966},{18579,5906},{17772,6201},{2010,5956},{17784,5366},{18161,0},{19310,0},{18673,5955},{14631,6205},{15423,6205},{15420,6206},{1107,6208},{17808,6209},{18633,5378},{15462,6210},{17814,6212},{1125,6208},{18637,5938},{18644,0},{16812,6215},{18649,5946},{18646,5947},{15522,6218},{18645,6219},{18655,5612},{17838,6216},{18658,4945},{18657,5174},{15531,6221},{2736,6208},{18654,5951},{18671,0},{18680,0},{17865,6224},{18686,0},{15600,6230},{18687,5961},{2781,6208},{17868,6231},{1104,6215},{18694,5589},{1104,6219},{1101,6215},{18704,0},{18702,5211},{18693,5966},{852,6215},{18713,0},{18714,5971},{18662,0},{18722,0},{1101,6219},{1962,6215},{1104,6218},{1962,6219},{15684,6241},{1140,6208},{18728,0},{18731,0},{855,6215},{852,6219},{18738,5982},{1974,6215},{1968,6215},{855,6219},{1101,6218},{18746,0},{18752,0},{852,6218},{1962,6218},{16287,6251},{1968,6219},{1131,6215},{1974,6219},{18758,0},{18761,0},{18765,5993},{1104,6231},{18770,0},{18779,0},{855,6218},{18776,0},{4707,6215},{1131,6219},{612,6251},{18782,0},{2778,6215},{1968,6218},{1101,6231},{18791,0},{18788,0},{18794,0},{18797,0},{1974,6218},{4707,6219},{1962,6231},{18800,0},{852,6231},{1131,6218},{18753,5436},{18803,0},{18806,0},{18809,0},{855,6231},{18812,0},{18815,0},{18818,0},{1983,6215},{2778,6219},{4707,6218},{18830,0},{18827,0},{18833,0},{2778,6218},{4887,6219},{1965,6251},{4887,6215},{1983,6219},{1104,6251},{1974,6231},{18938,0},{18845,0},{18848,0},{18851,0},{1101,6251},{1962,6251},{18872,0},{795,6251},{18879,5422},{18880,5225},{18884,0},{1146,6251},{18888,5429},{18754,5037},{15111,6251},{18908,0},{18917,0},{18916,5731},{17196,6306},{18923,0},{18919,5732},{18927,3769},{18929,0},{18932,0},{18753,406},{18956,0},{1143,6215},{795,6215},{18968,0},{17269,6322},{1143,6219},{18944,0},{18166,6314},{17277,6323},{18977,0},{18984,6077},{18165,6314},{18989,0},{309,6215},{16513,6314},{849,6208},{2778,6231},{1143,6218},{1146,6219},{1965,6218},{1143,6231},{18998,0},{1116,6231},{19004,0},{19001,0},{18995,0},{309,6218},{15921,6330},{19013,0},{19022,0},{18942,5504},{19010,0},{445,6341},{19019,0},{795,6218},{19031,0},{1152,6208},{309,6219},{1983,6231},{19040,0},{19033,5313},{19037,0},{1983,6218},{1131,6231},{18256,6348},{15942,6349},{19052,0},{19043,0},{19061,0},{19058,0},{795,6231},{1113,6231},{19055,0},{18991,6086},{19064,0},{19073,0},{19070,0},{19067,0},{4887,6218},{19079,0},{19076,0},{1146,6218},{19082,0},{19086,5951},{19083,3810},{795,6219},{1146,6215},{19091,0},{19094,0},{15939,6344},{1965,6231},{19100,0},{19103,0},{1131,6251},{19112,0},{855,6251},{18294,6231},{19127,0},{19124,0},{1983,6251},{19121,0},{19145,0},{4707,6251},{1968,6251},{2778,6251},{19146,6113},{4707,6231},{1974,6251},{801,6219},{612,6215},{19157,0},{4887,6251},{801,6215},{1116,6251},{1146,6231},{858,6251},{852,6251},{19175,0},{4887,6231},{19184,0},{2010,6251},{1143,6251},{1218,6215},{612,6219},{1113,6251},{801,6218},{612,6218},{1218,6219},{16035,6397},{1119,6208},{19196,0},{1968,6231},{1158,6251},{801,6231},{612,6231},{19205,0},{19220,0},{19217,0},{19223,0},{1965,6219},{19214,0},{1116,6218},{1218,6231},{1218,6218},{18628,5936},{1116,6215},{19227,6166},{1965,6215},{1113,6215},{1116,6219},{1113,6219},{1113,6218},{19232,0},{19244,0},{19235,0},{19238,0},{19256,0},{2010,6219},{2010,6218},{1158,6218},{801,6251},{1158,6215},{2010,6231},{1158,6231},{19280,0},{19289,0},{19286,0},{19283,0},{19277,0},{2010,6215},{858,6219},{19272,6188},{858,6218},{858,6231},{1158,6219},{858,6215},{19301,0},{19298,0},{18614,0},{19464,103},{19325,0},
{19328,0},{472,6443},{19334,0},{475,6447},{19340,0},{19349,0},{18640,6448},{19344,6213},{17829,6451},{19358,0},{19364,0},{19367,0},{19370,0},{19373,0},{19382,0},{409,6461},{19379,0},{19391,0},{19388,0},{18682,6466},{19398,6227},{421,6468},{19412,0},{19415,0},{19418,0},{19421,0},{19429,4971},{19424,0},{19427,0},{16237,6477},{19436,0},{19439,0},{19431,5412},{19457,0},{19454,0},{19460,0},{19463,0},{19469,0},{19470,6491},{19478,0},{19481,0},{19490,0},{19493,0},{19487,0},{19496,0},{19514,0},{19505,0},{19508,0},{19511,0},{19517,0},{19520,0},{19521,6508},{19532,0},{19550,0},{19547,0},{19541,0},{19559,0},{19553,0},{19562,0},{19565,0},{19569,6522},{19583,0},{19580,0},{19586,0},{16980,6529},{19592,0},{19595,0},{19598,0},{19610,0},{19622,0},{19625,0},{19628,0},{19629,6544},{19643,0},{19640,0},{19646,0},{19655,0},{19649,0},{19652,0},{19658,0},{858,6553},{2010,6553},{19673,0},{16368,6553},{19676,0},{1116,6553},{1113,6553},{1965,6553},{18087,6559},{19682,0},{19688,0},{19685,0},{19694,0},{19697,0},{19703,0},{4887,6553},{1983,6553},{18909,6568},{19707,5731},{19712,0},{19715,0},{19660,6308},{19724,0},{309,6576},{1218,6553},{19739,0},{18957,6578},{19742,0},{19751,0},{18207,6581},{19747,3442},{19753,5297},{19746,3442},{19752,5499},{19760,0},{18981,6587},{19769,0},{19777,6591},{19793,0},{19787,0},{19784,0},{19790,0},{19781,0},{19802,0},{19796,0},{19027,6604},{19803,6602},{19815,5136},{19773,6592},{19832,0},{19812,6342},{19817,0},{19826,0},{19838,0},{19830,5136},{19844,0},{19850,0},{19865,0},{19862,0},{487,6623},{19889,0},{19886,0},{19910,0},{19868,0},{19911,6638},{19895,0},{19919,0},{19934,0},{19935,6646},{19931,0},{19096,6647},{19925,0},{19928,0},{19946,0},{17343,6650},{19955,0},{19961,0},{19973,0},{19964,0},{19982,0},{19985,0},{19988,0},{19994,0},{19997,0},{20003,0},{20000,0},{20012,0},{20009,0},{17457,6668},{20021,0},{20018,0},{20024,0},{20015,0},{20030,0},{17490,6675},{17502,6677},{20036,0},{20039,0},{20045,0},{20042,0},{20048,0},{852,6553},{19941,6365},{1974,6553},{855,6553},{478,6686},{20054,0},{20057,0},{20051,0},{1104,6553},{1962,6553},{1101,6553},{20063,0},{1968,6553},{20069,0},{2778,6553},{1131,6553},{20072,0},{20078,0},{17610,6693},{20075,0},{1158,6553},{20099,0},{20093,0},{4707,6553},{20111,0},{20102,0},{20105,0},{20139,6712},{20126,0},{20120,0},{20123,0},{20117,0},{20129,0},{17679,6710},{20156,0},{20159,0},{20162,0},{20165,0},{20147,0},{20153,0},{20150,0},{612,6553},{17721,6726},{20172,6725},{20186,0},{20183,0},{20192,0},{20201,0},{20198,0},{20195,0},{19733,0},{801,6553},{20915,0},{19107,6890},{20214,4881},{16122,6739},{20222,0},{20220,5932},{20223,4698},{20228,0},{20229,5602},{20232,4703},{20237,0},{17820,6742},{18651,6748},{18660,6750},{20259,6750},{20271,4724},{15613,6760},{15612,6760},{20283,4744},{20289,6233},{20298,6767},{20310,6239},{20212,5590},{20315,0},{16899,6773},{20322,5635},{16770,6737},{20328,4765},{20333,0},{16918,6777},{20337,6778},{16935,6781},{20346,6249},{19497,6783},{20355,5650},{20367,6788},{20373,6512},{16959,6792},{19554,6794},{17988,6796},{20385,6261},{19575,6798},{20403,5659},{20412,6534},{19605,6805},{19617,6807},{20427,6808},{20439,5676},{17043,6817},{20445,6008},{20454,6555},{20459,0},{20462,0},{18054,6821},{20474,0},{20477,0},{20480,0},{20483,0},{18099,6828},{19689,6830},{18894,6832},{20504,0},{20507,0},{17179,6836},{20510,0},{20513,0},{19716,6839},{20528,0},{20468,0},{20904,6967},{19305,6970},{20532,6320},{17251,6845},{20537,0},{20546,0},{20548,2708},{20541,6846},{20552,0},{20547,3435},{20555,0},{20558,0},{20564,0},{18988,6854},{20577,6603},{20574,5764},{16527,6861},{20589,6607},{20603,0},{20586,6606},{20600,0},{20551,6615},{20610,5514},{20609,0},{20621,0},{20622,4840},{19851,6872},{19875,6875},{20634,5320},{19890,6877},{19878,6876},{19902,6880},{19899,6879},{18267,6878},{17331,6888},{20674,5310},{20673,5512},{18288,6894},{18315,6895},{19140,6897},{18327,6896},{20700,6119},{20706,6122},{20712,6903},{20715,6390},{20733,6134},{20730,6129},{18393,6908},{20482,6291},{20748,6139},{17532,6917},{18426,6919},
{18442,6921},{20762,0},{20786,0},{20781,5858},{20763,6147},{20771,0},{20768,0},{20064,6925},{20789,0},{20792,0},{20793,4864},{20798,0},{20817,6698},{20082,6937},{20808,6169},{20807,0},{20804,0},{20822,0},{20831,0},{20823,5882},{20832,6416},{20142,6952},{20850,6949},{17694,6948},{20871,6723},{20865,6430},{20862,6192},{20877,5908},{17742,6964},{20885,0},{20531,0},{20205,6966},{20202,6969},{14017,6974},{20928,6207},{20927,0},{20933,0},{15477,6978},{17821,6979},{15492,6981},{20951,0},{20957,0},{20958,6756},{15558,6987},{19398,6988},{20965,6759},{20969,0},{15627,6990},{20996,0},{15708,6999},{17949,7000},{21069,669},{18069,7026},{21081,665},{21087,6291},{18886,7031},{21095,0},{21098,0},{21097,6566},{21102,1545},{21099,1546},{21106,4004},{21107,0},{17178,7036},{18147,7037},{21116,0},{21134,0},{17250,7045},{18216,7046},{21143,0},{309,7049},{21152,0},{19770,7053},{445,7057},{21183,6868},{20613,7059},{19857,7064},{21191,0},{15948,7066},{21188,0},{14550,7069},{21224,0},{20920,5929},{21230,0},{20773,7093},{20921,0},{21233,0},{18343,7080},{21242,0},{21269,0},{20772,7093},{18453,7094},{18465,7095},{18474,7099},{21294,648},{21293,0},{21306,652},{16047,7103},{18519,7109},{18516,7108},{18525,7110},{17778,6972},{409,7136},{1119,7126},{21384,5149},{1107,7126},{21383,0},{21385,5149},{472,7130},{21395,0},{21394,6746},{475,7132},{1125,7126},{21402,6752},{2736,7126},{2781,7126},{21411,6227},{21416,0},{421,7140},{1140,7126},{21426,103},{21431,0},{21443,0},{21445,3993},{21446,0},{18885,7149},{21455,0},{21450,6566},{8454,7153},{21464,0},{21465,4004},{21470,0},{19720,7157},{21473,0},{20520,7158},{21482,0},{21485,0},{21489,6219},{21492,7051},{21497,0},{1152,7126},{21500,0},{21503,0},{21187,7168},{19867,7169},{487,7171},{849,7126},{21506,0},{19854,7166},{21509,0},{21521,0},{21527,0},{21534,5929},{21541,3465},{21542,0},{18342,7181},{21551,0},{478,7190},{21590,0},{21593,0},{21596,0},{19335,7199},{1107,7200},{19350,7201},{19351,7201},{19344,7202},{21611,0},{21614,0},{21617,0},{19359,7204},{1125,7200},{21620,0},{19321,7195},{21623,0},{19320,7195},{2736,7200},{21626,0},{21629,0},{20296,7211},{21633,6765},{2781,7200},{21638,0},{21640,6247},{1140,7200},{21639,6247},{17958,7214},{18876,7215},{21650,0},{21651,3993},{21656,0},{21662,0},{421,7221},{21671,0},{21677,0},{6037,7225},{21683,0},{19719,7226},{21688,6585},{21692,0},{21687,6585},{21695,0},{21701,0},{19855,7234},{21709,3457},{21705,7170},{1152,7200},{21712,3458},{21714,6631},{21719,0},{21708,3457},{21725,0},{21516,7240},{21716,0},{20646,7242},{21711,3458},{849,7200},{21737,0},{21740,0},{21741,3465},{21746,0},{1119,7200},{21564,7249},{20107,7250},{20106,7250},{21753,4899},{21759,4916},{16797,7252},{21767,0},{21770,0},{15453,7252},{21774,6213},{19360,7260},{16131,7252},{21783,4932},{21788,0},{21791,0},{21792,6756},{21798,4962},{21803,0},{21806,0},{21807,4976},{21417,7270},{21818,0},{21821,0},{21822,5005},{21830,0},{21833,0},{21836,0},{16945,7278},{21839,0},{19687,7279},{21845,0},{20499,7283},{21672,7285},{21863,0},{6036,7286},{21869,0},{21864,3769},{21156,7291},{21871,7231},{21878,0},{21870,7293},{16530,7294},{21887,0},{21896,0},{21902,0},{21915,6884},{21914,0},{21908,0},{16563,7301},{21920,0},{21926,0},{21923,0},{19965,7309},{21935,0},{21941,0},{21944,0},{21950,0},{16125,7317},{16149,7318},{21959,0},{21960,4921},{21968,0},{21971,0},{21974,0},{21977,0},{16176,7326},{21984,4948},{21989,0},{16209,7330},{21996,4967},{16230,7333},{22004,0},{22008,4990},{16278,7337},{22014,5013},{17967,7340},{20487,7342},{21846,7344},{18898,7345},{22037,0},{19711,7346},{22040,0},{22046,0},{22052,0},{22058,0},{22055,0},{22064,0},{20565,7353},{487,7355},{21891,7356},{22071,5099},{22074,7243},{22080,7361},{22054,6313},{22079,0},{445,7362},{17328,7364},{22089,7365},{22100,0},{19144,7366},{21936,7367},{22104,5121},{21945,7369},{22108,7315},{22222,7406},{19815,7402},{478,7371},{20940,7373},{472,7372},{16161,7374},{22126,5167},{22125,5167},{21399,7376},{17805,7378},{475,7379},{16188,7380},{22143,6464},{409,7382},{16218,7383},{421,7384},
{21813,7385},{22156,7271},{16245,7386},{22161,103},{16299,7388},{22169,0},{22172,0},{22175,0},{21454,7391},{22178,0},{18897,7393},{6022,7394},{20514,7395},{6021,7394},{22188,7349},{21526,7411},{22197,6313},{20569,7401},{22205,0},{22208,0},{16566,7404},{22215,7174},{20667,7409},{22229,0},{22223,0},{22220,0},{445,7410},{22235,0},{19977,7412},{22244,0},{21268,7414},{16674,7415},{22250,0},{20275,7431},{21762,7420},{22265,0},{22266,6745},{22267,6982},{472,7423},{1107,7424},{22277,0},{22280,0},{22283,0},{22285,6458},{19374,7428},{475,7429},{1125,7424},{20274,7431},{409,7432},{2736,7424},{22301,0},{22304,0},{20304,7433},{421,7436},{2781,7424},{21004,7437},{1140,7424},{22314,103},{22311,7001},{17976,7439},{21657,7441},{22334,0},{22340,0},{22343,0},{22192,7448},{22346,0},{22352,0},{22355,0},{20568,7452},{21195,7453},{20611,7453},{22258,5136},{22257,5136},{487,7454},{1152,7424},{22367,0},{22374,7459},{20668,7457},{22370,0},{21732,7461},{22381,7177},{22388,0},{1119,7424},{21546,7463},{19335,7420},{478,7465},{849,7424},{22380,7177},{22110,7466},{22261,6445},{22406,0},{22412,0},{17826,7469},{22417,7259},{22421,0},{22416,7259},{22422,5143},{22131,7475},{22426,7377},{22428,5378},{22432,6222},{17857,7478},{22431,6222},{22434,5952},{22442,0},{22445,0},{22447,7210},{22451,0},{22446,7138},{20305,7484},{22005,7485},{22460,0},{22466,0},{22462,6994},{22461,6994},{22469,0},{22472,0},{22024,7491},{22478,0},{15748,7493},{22473,7341},{22481,0},{22484,0},{22491,7496},{22496,0},{22191,7499},{22570,6431},{19005,7500},{22508,0},{22511,0},{22514,0},{22516,6868},{22515,6610},{22535,0},{22526,0},{19080,7504},{22520,0},{22523,0},{22532,0},{22541,0},{22550,0},{22553,0},{17797,7518},{22415,0},{22562,0},{22568,0},{22544,0},{22565,0},{22569,6431},{22572,7129},{22413,7525},{21963,7525},{22580,0},{22589,0},{22584,5173},{22595,0},{14680,7530},{16141,7533},{22610,0},{20262,7535},{22613,0},{20263,7535},{22614,5192},{16819,7526},{22622,0},{22628,0},{22623,5215},{22630,6236},{22631,0},{22634,0},{20985,7545},{22638,5226},{22646,0},{22655,0},{22650,5245},{22664,0},{15747,7555},{22661,0},{22673,0},{21862,7557},{22679,0},{22738,7560},{20593,7561},{22685,0},{22209,7563},{19920,7564},{22697,0},{22700,0},{22709,0},{22704,5332},{22695,7571},{22722,5341},{20221,7576},{22734,5352},{22209,7567},{22740,7581},{22680,7579},{22748,0},{21723,7567},{22751,0},{22754,0},{20241,7586},{16179,7588},{21981,7589},{1107,7590},{1107,7591},{22781,0},{22438,7595},{22437,7595},{1107,7597},{16206,7596},{17829,7586},{1125,7590},{1125,7591},{2736,7590},{1125,7597},{16239,7600},{22805,0},{22804,7544},{18708,7602},{22642,7604},{2736,7591},{16269,7605},{22814,0},{2736,7597},{2781,7590},{21423,7606},{2781,7591},{2781,7597},{16314,7608},{1140,7590},{22832,0},{1140,7591},{22041,7612},{22558,7626},{1140,7597},{22850,0},{20592,7617},{22856,0},{22859,0},{1152,7590},{1152,7591},{22860,7507},{22710,7621},{16593,7623},{22874,0},{1152,7597},{16653,7625},{1119,7597},{22557,7626},{1119,7591},{1119,7590},{849,7597},{22881,5574},{22884,7563},{849,7591},{849,7590},{22889,0},{22892,0},{22898,0},{21771,7633},{22902,7527},{22907,0},{472,7636},{22913,0},{22916,0},{22919,0},{22782,7640},{22928,0},{475,7644},{22931,0},{22937,0},{22940,0},{22943,0},{22946,0},{409,7650},{22949,0},{22953,7603},{22961,0},{22967,0},{22964,0},{421,7656},{22641,7657},{22979,0},{22976,0},{22982,0},{22985,0},{22988,0},{22660,7663},{22994,0},{16971,7665},{22989,7611},{23000,0},{23003,0},{22536,7693},{22893,7692},{23009,0},{23015,0},{23016,7303},{22224,7673},{23024,0},{23027,0},{23030,0},{23031,7295},{487,7678},{23042,0},{478,7681},{22900,7257},{23048,0},{23054,0},{23057,0},{23060,0},{445,7687},{23051,0},{23066,0},{23069,0},{23072,0},{17760,7750},{23084,0},{20952,7696},{22597,7697},{22596,7697},{23097,5181},{22602,7698},{23095,7534},{23100,5187},{23105,0},{23112,5404},{23115,6217},{23118,5201},{23121,5206},{23124,5217},{22306,7709},{23130,5416},{22305,7709},{23135,0},{23139,5232},{23150,0},{23147,0},{23151,5238},{23154,5428},{21825,7715},{23160,5244},
{23163,5437},{23168,0},{23169,5254},{16330,7724},{23177,0},{23174,0},{23178,5259},{23244,7581},{23190,5500},{23198,0},{23199,7509},{23205,5336},{23208,7622},{23202,5335},{23196,7511},{23213,0},{23216,0},{23217,5538},{23222,0},{23226,5562},{23223,7740},{23229,5356},{23232,5357},{23240,0},{23235,5575},{22251,7746},{23189,0},{23005,7729},{23247,5362},{370,7751},{22755,7752},{23261,0},{23267,0},{23273,0},{16842,7756},{18675,7759},{21795,7760},{23281,7265},{18643,7762},{19407,7761},{16872,7763},{18696,7764},{16881,7765},{23306,0},{19443,7767},{23136,7769},{18732,7770},{21826,7772},{16926,7773},{19482,7774},{23327,0},{18762,7776},{19527,7777},{16974,7779},{16995,7782},{18834,7783},{23352,7728},{23414,0},{23408,0},{23415,6437},{19764,7785},{22701,7786},{23363,0},{23375,0},{17379,7790},{19128,7788},{23214,7792},{23376,7672},{19989,7794},{21963,7752},{23224,7795},{23393,0},{20112,7796},{19251,7798},{23004,7803},{17688,7799},{22252,7800},{20187,7801},{23420,0},{445,7836},{475,7817},{445,7854},{478,7852},{23423,0},{23424,6749},{22776,7810},{472,7811},{472,7812},{23441,0},{23443,7703},{23442,7703},{1107,7815},{472,7816},{23425,6749},{475,7818},{1125,7815},{409,7819},{475,7821},{23468,0},{409,7823},{23474,0},{23473,7660},{2736,7815},{409,7826},{421,7825},{22017,7827},{421,7828},{2781,7815},{421,7829},{23341,7830},{23490,7780},{23495,0},{23512,7054},{23419,7615},{1140,7815},{23511,7054},{23516,0},{23367,7839},{487,7841},{487,7842},{23529,7672},{23534,0},{1152,7815},{487,7845},{23540,0},{23543,0},{1119,7815},{478,7849},{23501,0},{849,7815},{478,7850},{23555,0},{23561,0},{23565,7615},{23704,7577},{23085,7860},{23585,0},{23275,7863},{23274,7863},{23588,0},{22924,7862},{21993,7865},{23603,0},{23606,0},{1107,7870},{23618,0},{23621,0},{22956,7873},{23142,7875},{1125,7870},{23626,7714},{23631,7719},{23639,0},{23644,7549},{23648,0},{23643,7489},{2736,7870},{23650,7607},{23649,7551},{23656,7778},{23654,0},{23655,7778},{23663,0},{2781,7870},{17010,7888},{23569,7834},{23706,7803},{23672,0},{23675,0},{1140,7870},{23678,0},{23679,7512},{23684,0},{23520,7893},{23687,0},{23690,0},{23693,0},{1152,7870},{23694,7793},{23685,7840},{23699,0},{23702,0},{22731,7901},{23049,7902},{1119,7870},{23711,0},{23720,0},{23715,7691},{23724,7747},{849,7870},{23568,7834},{23073,7909},{23576,0},{23732,0},{23738,0},{23730,7942},{20253,7913},{22923,7916},{23747,0},{23753,0},{23756,0},{23760,5965},{23765,0},{23766,5972},{22957,7923},{23774,0},{23777,0},{23780,0},{23629,7927},{23628,7927},{23786,0},{23787,5987},{23791,7882},{23792,0},{23798,0},{23801,0},{23804,0},{23807,0},{23811,5995},{23816,0},{23822,0},{18832,7941},{23825,0},{23835,6063},{23840,0},{21696,7947},{22543,7948},{23847,7679},{23852,0},{23867,0},{23864,0},{23868,7893},{23871,6127},{23879,0},{23882,0},{23829,7668},{23886,6179},{23885,0},{23734,7859},{23733,7859},{23889,6195},{23894,0},{23542,7965},{23832,7942},{23903,0},{23900,0},{23904,7905},{23932,7467},{22761,7971},{23918,0},{23921,0},{23924,0},{23593,7976},{23592,7976},{22401,7977},{20973,7978},{23937,6235},{20979,7980},{23945,0},{23313,7983},{23952,6245},{23960,0},{21012,7988},{23970,7931},{23976,6257},{22656,7991},{22827,7994},{21036,7995},{23343,7996},{23497,7998},{23991,6274},{23496,7998},{19635,7999},{24066,6438},{24058,7969},{24071,0},{21129,8000},{24003,6324},{24008,0},{24011,0},{24014,0},{24015,7951},{24009,7952},{24021,6389},{24026,0},{21255,8009},{24030,7525},{24038,0},{23544,8011},{21339,8013},{24042,6421},{21354,8017},{23559,8018},{24050,0},{24057,7858},{24077,0},{24078,8021},{24081,6755},{23106,8028},{24092,0},{24095,0},{24073,7857},{24072,7857},{472,8032},{20976,8033},{24082,6755},{475,8034},{24110,0},{24109,7878},{21006,8037},{409,8039},{24122,0},{24128,0},{21021,8041},{23803,8042},{23809,8043},{24131,0},{421,8044},{24137,0},{21054,8047},{24146,0},{24149,0},{445,8068},{24155,0},{24209,0},{24159,7159},{21144,8054},{24160,7044},{24168,7896},{23859,8057},{24179,0},{21252,8060},{487,8062},{22582,8063},{24195,8064},{478,8066},{21345,8067},{24215,0},
{23505,8052},{21123,8050},{24216,7754},{24224,0},{24227,0},{22617,8077},{24239,0},{472,8081},{1107,8082},{24251,0},{24252,7878},{1125,8082},{475,8086},{24257,0},{24263,0},{2736,8082},{23979,8089},{409,8090},{24278,0},{23808,8093},{24284,0},{23658,8094},{421,8096},{2781,8082},{24294,8097},{24347,0},{445,8116},{24308,0},{24313,8002},{24314,0},{1140,8082},{24317,0},{24303,8052},{24320,0},{487,8108},{24346,7890},{1152,8082},{24329,0},{24217,7754},{1119,8082},{24332,0},{849,8082},{24335,0},{478,8113},{24299,0},{23722,8155},{24353,0},{21405,8118},{24357,7866},{24358,7866},{22621,8120},{24362,0},{20259,8118},{24371,0},{20958,8118},{24380,0},{24377,0},{23641,8128},{23640,8128},{24392,0},{24398,0},{24395,0},{24404,0},{23659,8135},{24410,0},{24139,8137},{24138,8137},{24416,0},{23668,8139},{23721,8155},{21684,8142},{24419,0},{24432,8055},{24437,0},{24174,8146},{24018,8148},{24441,7900},{24443,0},{24450,8109},{24455,0},{24449,0},{24452,0},{24461,0},{24464,0},{24471,8015},{23712,8153},{23832,8140},{24470,0},{24472,8015},{24060,8140},{23427,8161},{24488,0},{24491,0},{24493,7869},{24492,7869},{22794,8166},{24497,0},{23613,8165},{24503,0},{24504,6772},{24509,0},{23961,8171},{24510,6780},{24521,0},{24522,6793},{24536,0},{24535,8045},{23817,8179},{24545,0},{24546,6816},{24551,0},{23713,8197},{24609,8099},{24614,0},{24557,0},{21142,8185},{23667,8186},{24563,0},{24564,6886},{24569,0},{24572,0},{24575,0},{23874,8192},{24581,0},{24582,6918},{24594,6951},{24606,6965},{24605,0},{24599,0},{24602,0},{24610,8159},{24554,0},{24210,8243},{24726,7970},{24737,0},{24683,0},{24310,8230},{24219,8228},{24617,0},{22290,8206},{23757,8207},{24629,0},{23614,8211},{24632,0},{24638,0},{24640,6482},{20988,8214},{24639,6482},{21618,8215},{21009,8217},{24650,0},{23968,8216},{21027,8219},{24660,8095},{24668,0},{21060,8224},{24309,8230},{21486,8229},{24695,0},{21225,8233},{24702,8107},{24705,8146},{24183,8236},{24713,0},{21273,8239},{24680,0},{21348,8240},{21363,8241},{24743,0},{445,8282},{24213,8249},{24758,0},{24759,7914},{24764,0},{24767,0},{22797,8258},{24773,0},{1107,8260},{472,8261},{24788,0},{24791,0},{1125,8260},{23967,8265},{475,8264},{24800,0},{24799,8129},{409,8267},{2736,8260},{24806,0},{24808,8180},{2781,8260},{24807,8180},{421,8270},{24300,8249},{24818,0},{24815,0},{1140,8260},{24827,0},{23827,8248},{24828,8277},{1152,8260},{487,8279},{24154,8252},{1119,8260},{849,8260},{24760,7914},{478,8281},{24552,8280},{24480,8280},{24481,8247},{24857,0},{24924,8286},{24863,0},{19395,8288},{24867,8078},{24868,8078},{24872,0},{24878,0},{24882,6750},{24885,6756},{24890,0},{24893,0},{24897,8087},{24905,0},{24908,0},{24917,0},{24920,0},{24854,0},{24927,8310},{24935,0},{24941,0},{24708,8312},{24944,0},{24939,8195},{24947,0},{24951,8316},{24953,0},{24950,0},{24956,0},{24961,8112},{24959,0},{24960,8112},{24300,8286},{24974,0},{24969,8283},{24480,8283},{24968,0},{24980,0},{23925,8327},{24986,0},{24989,0},{24991,8080},{24990,8080},{24993,7766},{24994,7766},{24996,6775},{19372,8333},{18670,8334},{25005,6784},{24264,8336},{25013,0},{25017,6800},{25020,6812},{24669,8341},{24424,8358},{25031,0},{25032,6860},{25040,0},{25035,8149},{25046,0},{25047,6926},{25052,0},{25056,8351},{25059,6942},{25065,6958},{25073,0},{24423,8358},{25070,0},{25083,8244},{25079,0},{25082,0},{24750,8325},{25179,8394},{25188,8362},{25091,0},{25092,6467},{24363,8365},{25103,0},{25106,0},{25108,7874},{25107,7874},{20991,8370},{1107,8371},{1107,8372},{25093,6467},{21018,8373},{1125,8371},{25124,0},{24274,8374},{1125,8372},{21042,8376},{2736,8371},{2736,8372},{21057,8377},{25136,0},{25185,8246},{25140,7398},{1119,8372},{1140,8371},{21168,8381},{2781,8371},{2781,8372},{1140,8372},{25141,7398},{24834,8382},{25151,0},{1152,8371},{21288,8385},{1152,8372},{25163,0},{1119,8371},{21336,8388},{849,8372},{24088,8363},{21360,8389},{849,8371},{25170,8114},{25175,0},{25193,0},{24679,8420},{25196,0},{24087,8399},{25202,0},{25205,0},{24772,8401},{23460,8403},{25217,0},{472,8406},{25223,0},{25226,0},{1107,8409},{475,8410},
{24273,8412},{25235,0},{25241,0},{25240,8175},{25244,0},{1125,8409},{409,8415},{25250,0},{25253,0},{2736,8409},{421,8418},{25258,8225},{445,8439},{24675,8419},{2781,8409},{25265,0},{1119,8409},{25268,0},{1140,8409},{25271,0},{25277,0},{25280,0},{24823,8428},{25283,0},{24822,8428},{25287,8347},{24456,8430},{24714,8430},{25295,0},{1152,8409},{25138,8398},{487,8432},{24736,8441},{25301,0},{25307,0},{478,8436},{849,8409},{25313,0},{25316,0},{25322,0},{25137,8445},{25340,0},{20286,8447},{25349,0},{24873,8448},{24366,8449},{25352,0},{23944,8450},{25358,0},{25359,5647},{25362,6786},{25367,0},{25370,0},{25373,0},{25374,5656},{25377,8132},{25383,6797},{25388,0},{25391,0},{25392,5661},{25395,6810},{25405,8307},{25400,0},{25403,0},{25404,8307},{24475,8495},{25412,0},{22200,8472},{25415,0},{25427,0},{25422,6857},{25421,0},{25428,5768},{25431,5771},{25434,6881},{25440,6885},{25439,0},{25445,0},{25449,8196},{25448,0},{25455,5857},{25463,0},{25460,0},{25469,0},{25466,0},{25467,8488},{25470,6946},{25473,5899},{25481,0},{25482,6960},{25062,8443},{25332,8284},{24474,8495},{25488,5922},{25330,8354},{25409,0},{25333,8342},{25653,8469},{25649,0},{20661,8532},{25493,0},{24228,8498},{25499,0},{25505,0},{24367,8500},{25508,0},{24105,8503},{25513,8124},{25512,8083},{21015,8506},{20370,8507},{25524,6514},{21030,8511},{24528,8510},{25538,0},{20397,8513},{25542,6533},{21048,8516},{20433,8517},{25557,6554},{25565,0},{25654,8552},{24819,8523},{25575,6599},{25574,0},{25578,6611},{20595,8527},{25584,6609},{21201,8529},{21210,8530},{20649,8531},{25452,8536},{25607,0},{21300,8537},{25617,6695},{25620,8541},{25628,0},{20841,8543},{21342,8544},{25635,6722},{20889,8546},{25643,0},{21372,8550},{25661,0},{25646,0},{25664,0},{421,8586},{25326,8557},{25676,0},{25677,6764},{24777,8560},{25685,0},{25691,0},{25694,0},{25697,0},{472,8566},{472,8567},{21024,8568},{25678,6764},{475,8569},{25712,0},{24277,8570},{475,8572},{21045,8573},{409,8574},{409,8575},{25738,8143},{21066,8576},{25176,8598},{25736,0},{445,8597},{478,8583},{25739,0},{25744,7501},{21165,8580},{21180,8584},{25743,7501},{21174,8582},{21889,8585},{25755,7296},{25669,7418},{421,8587},{25668,7418},{25767,8384},{25766,0},{487,8590},{21315,8591},{487,8594},{478,8595},{21351,8596},{445,8599},{25814,0},{24624,8605},{25820,0},{25823,0},{23946,8609},{472,8614},{1107,8615},{25850,0},{24399,8617},{25855,8338},{25854,8301},{25859,0},{1125,8615},{475,8620},{25867,8518},{25870,8520},{25866,8518},{409,8624},{24429,8629},{2781,8615},{421,8631},{25891,8424},{25871,0},{478,8632},{2736,8615},{25272,8630},{25901,0},{25902,7670},{1140,8615},{1119,8615},{24754,8603},{25910,0},{24753,8603},{25915,8533},{25919,0},{25914,8479},{25903,7616},{25920,8641},{1152,8615},{25614,8642},{25928,0},{487,8643},{25660,8604},{25816,8208},{25934,0},{849,8615},{445,8646},{25877,0},{25567,8625},{25883,0},{25566,8695},{26081,0},{25944,8600},{25949,0},{20307,8650},{25212,8651},{25954,8404},{25958,0},{25964,0},{25961,0},{25970,0},{25973,0},{25976,0},{25982,0},{25985,0},{25994,0},{25991,0},{26000,0},{26010,8467},{25995,8663},{26004,8669},{26003,0},{22686,8674},{26018,0},{26015,0},{26027,0},{26021,0},{26033,0},{26030,0},{26042,0},{26045,0},{22716,8682},{26051,0},{26009,0},{26054,0},{26057,0},{26060,0},{26063,0},{25461,8688},{26069,0},{26070,8644},{26072,0},{26090,0},{26074,8321},{26073,8321},{26084,0},{25942,8740},{26096,0},{26102,0},{24768,8701},{26108,0},{26111,0},{26113,8293},{26112,8293},{26115,7985},{26116,7985},{26118,6524},{24531,8708},{26133,6538},{25731,8713},{25996,8714},{24696,8715},{26153,0},{26157,6624},{26156,0},{26150,0},{26161,8635},{23193,8723},{26163,6627},{26162,0},{26178,6635},{26175,6632},{25602,8730},{26005,8731},{26189,0},{26053,8729},{25158,8733},{26202,6696},{25776,8735},{25779,8735},{26210,0},{25941,8740},{26076,8739},{26216,0},{26097,6439},{26228,0},{21216,8768},{21898,8765},{21375,8782},{25803,8746},{26243,0},{26244,6480},{25353,8749},{26255,0},{26258,0},{24382,8753},{24381,8753},{26245,6480},{21039,8754},{26267,0},
{24664,8755},{21051,8756},{26276,0},{26275,8757},{26273,0},{26314,8770},{26279,0},{21204,8761},{26172,8762},{26289,8760},{26301,8635},{26294,0},{21213,8766},{21219,8769},{26297,0},{26196,8772},{26312,0},{26315,0},{26324,0},{21318,8775},{26330,0},{26339,0},{25665,8745},{26342,0},{26363,0},{25098,8788},{26369,0},{26372,0},{25693,8790},{24114,8792},{26384,0},{1107,8795},{472,8796},{24663,8797},{26395,8515},{26396,0},{475,8799},{26400,8802},{26462,0},{445,8786},{26413,8678},{26293,8806},{421,8805},{26420,0},{26423,0},{409,8810},{26357,0},{26426,0},{478,8811},{21897,8812},{26034,8804},{1119,8795},{26445,8814},{26441,0},{2736,8795},{26353,8785},{1140,8795},{2781,8795},{1125,8795},{1152,8795},{25302,8816},{487,8817},{25735,8787},{26365,8366},{849,8795},{26454,8778},{26466,8626},{26471,0},{19449,8824},{25830,8825},{26479,8505},{26478,8452},{26483,0},{26482,8172},{26489,0},{26492,0},{26495,0},{26499,8463},{26507,0},{26515,8807},{26520,8839},{26427,8841},{26352,8844},{26514,8842},{26037,8845},{26546,0},{26543,0},{26549,0},{26552,0},{26519,0},{26558,0},{26561,0},{26564,0},{26567,0},{26570,0},{26573,0},{26576,0},{26584,8492},{26582,0},{26588,0},{26583,8492},{26579,0},{26580,8689},{26508,8741},{26509,8741},{26706,8627},{26594,0},{25206,8865},{26600,0},{26603,0},{26606,0},{26609,0},{24516,8870},{26615,0},{26616,6802},{24909,8874},{26627,0},{26633,0},{26639,0},{26636,0},{25912,8882},{26642,0},{26645,0},{26181,8883},{26648,0},{26655,6892},{26521,8887},{26664,6901},{26670,6909},{26673,6912},{26676,6933},{26679,6945},{26331,8894},{26688,8737},{26696,0},{26691,6956},{26702,0},{26705,0},{26707,8697},{26711,0},{25806,8904},{26717,0},{26718,5634},{25833,8907},{26732,0},{24895,8911},{24894,8911},{20409,8912},{26719,5634},{24913,8913},{26741,0},{26349,8935},{26044,8921},{26810,0},{26652,8919},{26529,8915},{26748,8917},{26756,0},{25911,8922},{26765,0},{20679,8923},{26774,0},{20721,8925},{26530,8915},{20739,8926},{20742,8927},{20814,8928},{20859,8929},{26792,0},{25684,8905},{20886,8933},{475,8964},{26816,0},{25824,8939},{26822,0},{26825,0},{24654,8942},{26834,0},{472,8945},{1107,8946},{26843,0},{24912,8948},{1125,8946},{26849,0},{445,8968},{26861,0},{2781,8946},{26864,0},{2736,8946},{26858,0},{1140,8946},{26184,8957},{1119,8946},{26870,0},{478,8958},{409,8960},{26857,7449},{421,8963},{1152,8946},{26233,8938},{487,8965},{26903,0},{26589,8966},{849,8946},{25935,8967},{26232,8970},{26915,0},{17934,8972},{26379,8973},{26920,8793},{26924,0},{24901,8974},{26930,0},{26933,0},{25864,8978},{25863,8978},{26939,0},{26942,0},{26760,8983},{26954,0},{26865,8985},{26960,0},{26961,7449},{26966,0},{26972,0},{26969,0},{26887,8994},{26984,0},{26956,8955},{26990,0},{26993,0},{26943,8895},{26991,8899},{26996,0},{25936,8999},{27002,0},{26948,0},{26944,8895},{27008,0},{27005,0},{27011,0},{25686,9004},{27017,0},{27020,0},{25837,9007},{25836,9007},{24900,9008},{27029,0},{27028,8509},{27033,6537},{27041,0},{27045,6556},{27111,6736},{27106,8743},{26343,9033},{27105,8694},{27051,6649},{27050,0},{27057,6652},{27056,0},{27062,0},{27063,6658},{27066,6656},{27074,0},{27049,8950},{26986,9026},{26886,9025},{26985,9026},{27081,6711},{27084,8859},{27089,0},{27092,0},{27098,0},{26796,9068},{26457,9038},{27119,0},{27120,5981},{26484,9041},{27131,0},{27134,0},{27135,8456},{18819,9047},{27121,5981},{27042,9048},{18858,9049},{27155,0},{27161,0},{27165,8950},{19113,9054},{26973,9057},{19116,9056},{22719,9058},{19137,9060},{19131,9059},{27188,0},{27194,0},{27197,0},{19260,9066},{27203,0},{18933,9050},{27158,0},{27294,8821},{26802,9096},{27218,0},{27219,8750},{27224,0},{27227,0},{27226,8943},{25125,9077},{27236,0},{1107,9080},{472,9079},{25987,9081},{27245,0},{475,9082},{445,9097},{27097,9071},{27220,8750},{2781,9080},{421,9086},{2736,9080},{27257,0},{27263,0},{27262,8773},{1140,9080},{409,9088},{27269,0},{27268,7413},{478,9090},{1119,9080},{1125,9080},{26980,9092},{26979,9092},{1152,9080},{26809,9072},{487,9095},{26793,9096},{849,9080},{27215,0},{27299,0},{26853,9101},{27308,0},{17955,9103},
{27312,8943},{27317,0},{27320,0},{25381,9106},{27326,0},{27329,0},{27332,0},{25986,9111},{27338,0},{27210,9136},{27069,9119},{27341,0},{27344,0},{27346,8628},{27345,8628},{27350,0},{27356,0},{27353,0},{27368,0},{27365,0},{26319,9120},{27371,0},{27376,9091},{27372,7413},{27383,0},{27380,0},{27377,0},{27386,0},{27389,0},{27392,0},{27395,0},{27401,0},{27398,0},{27396,8998},{27404,0},{26511,9114},{27407,0},{27416,0},{26373,9139},{27422,0},{27425,0},{25840,9142},{25839,9142},{25380,9143},{27433,8655},{27434,0},{27435,5672},{27446,0},{26512,9153},{27524,0},{27531,5918},{27467,0},{27468,5795},{27364,9158},{27454,8803},{27471,5801},{27455,0},{27480,9117},{27485,0},{27477,5806},{27491,0},{27494,0},{27273,9167},{27495,5816},{27504,5822},{27513,5895},{27300,9137},{27093,9173},{27452,0},{27530,0},{27525,9069},{26811,9178},{27539,0},{27540,6500},{26925,9181},{27551,0},{27554,0},{27558,8616},{18837,9187},{27541,6500},{27108,9209},{26605,9179},{19134,9193},{27591,8803},{27587,0},{19149,9196},{27586,9162},{19152,9200},{27596,0},{26553,9199},{22545,9202},{27611,0},{19164,9204},{19176,9205},{27584,0},{19257,9206},{18945,9191},{27569,0},{27626,0},{27623,0},{27667,8722},{27638,0},{26724,9213},{27644,0},{27647,0},{27139,9215},{25713,9217},{27656,0},{1107,9220},{472,9219},{27665,0},{27633,9240},{445,9237},{27666,8671},{2781,9220},{421,9223},{27675,9123},{27674,0},{2736,9220},{409,9226},{27692,0},{21739,9228},{27695,0},{1119,9220},{1125,9220},{478,9233},{475,9234},{27684,7310},{1140,9220},{27683,0},{849,9220},{1152,9220},{27154,9212},{487,9236},{27249,9242},{27731,0},{20361,9244},{27138,9245},{27739,8707},{27740,0},{27743,0},{25972,9247},{27749,0},{26884,9267},{27758,0},{26658,9258},{27462,9251},{27725,0},{27764,0},{27770,0},{27767,0},{27782,0},{27779,0},{27773,0},{27788,0},{26667,9256},{27797,0},{27794,0},{26877,9260},{27800,0},{26883,9267},{27806,0},{27809,0},{27815,0},{27818,0},{27821,0},{27824,0},{27819,9133},{27754,9154},{27761,0},{27926,0},{27827,0},{26727,9276},{27833,0},{27836,0},{27840,8653},{26127,9281},{27847,8659},{27846,8619},{27849,6009},{27928,9034},{26773,9292},{27863,0},{26560,9290},{27873,6121},{27879,6123},{27860,0},{27790,9295},{27890,0},{27891,6132},{27899,0},{27894,6133},{27789,9295},{27905,0},{27909,6138},{27912,6167},{27915,6191},{27570,9285},{27516,9306},{27927,8982},{27576,9323},{27252,9312},{27941,0},{27943,6511},{27321,9315},{27950,0},{27953,0},{27942,6511},{27956,0},{27959,0},{21063,9320},{27965,0},{27691,9324},{27972,9261},{27859,9322},{21246,9325},{27981,9322},{21249,9326},{21261,9330},{21258,9332},{28001,0},{21270,9335},{21321,9336},{21357,9337},{28022,0},{28019,0},{28016,0},{28028,0},{28029,9042},{1152,9344},{28037,0},{27556,9345},{28046,0},{26130,9347},{472,9351},{1107,9344},{1140,9344},{487,9364},{27724,9341},{28025,0},{28030,9042},{2736,9344},{1125,9344},{2781,9344},{28061,0},{849,9344},{421,9356},{28067,0},{28064,0},{409,9358},{28073,0},{478,9360},{475,9359},{28087,7464},{1119,9344},{27906,9361},{28086,7464},{445,9363},{27568,9342},{27717,9367},{28202,0},{28136,0},{27714,9368},{28109,0},{28112,0},{27555,9371},{28118,0},{28117,8873},{28124,0},{20418,9373},{26497,9374},{28130,0},{28133,0},{27864,9380},{28145,0},{26538,9381},{28148,0},{28151,0},{28154,0},{28160,0},{27987,9389},{28162,9061},{27993,9391},{28171,9063},{28161,9061},{28180,9169},{28178,0},{28170,9063},{28187,0},{28183,9396},{28190,0},{28179,9129},{28193,0},{28199,0},{28137,9113},{27822,9399},{28138,9152},{28211,0},{27228,9404},{28215,5997},{28220,0},{28221,8830},{28232,0},{26496,9409},{28235,0},{28234,8712},{28236,6017},{28239,6032},{28244,0},{26539,9415},{28250,0},{28251,6097},{28254,6103},{28257,6107},{28260,6130},{28267,9421},{28265,0},{28273,9423},{28277,0},{28271,0},{28280,0},{28286,0},{28287,6143},{28292,0},{28182,9431},{28298,0},{22725,9433},{27933,9401},{27921,9434},{28307,0},{28313,0},{28310,0},{28409,0},{27630,9438},{28319,0},{21033,9440},{27744,9441},{28328,0},{28329,5998},{28334,0},{28335,8661},{28330,5998},{21075,9447},{21090,9448},
{27867,9449},{28352,0},{28318,9182},{21234,9452},{21237,9453},{21243,9454},{21264,9455},{28370,0},{28266,9457},{28376,0},{27279,9459},{28272,9460},{27282,9462},{21276,9463},{27510,9466},{28397,0},{28403,0},{28406,0},{27964,9474},{28424,0},{27546,9475},{487,9476},{28433,0},{27955,9477},{28439,0},{26742,9480},{28445,0},{1119,9482},{472,9483},{1107,9482},{28452,7343},{1140,9482},{28457,0},{28463,0},{409,9488},{2736,9482},{475,9489},{1125,9482},{421,9490},{2781,9482},{849,9482},{445,9491},{28481,0},{28490,0},{28487,0},{478,9498},{28453,7343},{28493,0},{28499,0},{28351,9485},{28098,9502},{1152,9482},{28511,0},{28512,9352},{28517,0},{28047,9507},{28525,9010},{28524,8976},{27037,9510},{18003,9509},{28532,0},{28538,0},{28544,0},{28547,0},{28550,0},{28610,0},{27931,9534},{28458,9517},{26977,9518},{26976,9518},{28562,0},{28557,9194},{28563,9227},{28568,0},{28569,9201},{28574,0},{28577,0},{28570,9201},{28558,9235},{28564,9270},{28594,9467},{28592,0},{28593,9501},{27759,9534},{28580,0},{28509,9378},{28607,0},{28416,9571},{28693,9499},{28611,9402},{28690,9497},{28616,0},{27648,9539},{28622,0},{28625,0},{28628,0},{28631,0},{28634,0},{28638,6814},{27036,9545},{28641,6823},{28647,6831},{22320,9548},{28658,0},{28664,0},{28670,0},{28665,6898},{28673,0},{28674,6899},{28679,0},{28680,6906},{28683,6915},{28687,9495},{28686,9529},{28691,0},{28694,0},{28697,0},{28703,0},{28655,0},{28712,0},{21126,9550},{28706,0},{28718,0},{28095,9576},{28733,0},{28724,0},{28050,9578},{26503,9581},{28746,5673},{26502,9581},{18840,9583},{28754,0},{28747,5673},{18861,9585},{18891,9586},{21649,9587},{28763,0},{487,9605},{28353,9588},{27838,9577},{19158,9591},{27687,9590},{19161,9593},{27882,9592},{27696,9594},{19179,9595},{19185,9596},{28793,0},{28797,9532},{28796,0},{28800,9533},{28858,9620},{28312,9608},{27837,9609},{28835,0},{28339,9611},{28841,0},{28844,0},{478,9615},{1119,9617},{1107,9617},{472,9618},{21840,9621},{28857,9620},{1140,9617},{28871,0},{28873,9166},{28874,0},{28880,0},{28060,9626},{409,9625},{28886,0},{28066,9628},{475,9627},{27985,9629},{28889,0},{421,9630},{849,9617},{445,9631},{1125,9617},{2736,9617},{28901,0},{28826,0},{28907,0},{2781,9617},{28660,9623},{1152,9617},{28419,9607},{28913,0},{28916,0},{28338,9639},{28922,0},{28921,9146},{18018,9641},{28848,9642},{28934,0},{28937,0},{28943,0},{28946,0},{28949,0},{28659,9650},{28956,9126},{28155,9653},{28965,9654},{28974,9657},{28164,9656},{28979,0},{27984,9660},{28988,0},{28991,0},{28994,0},{28997,0},{28964,0},{28973,0},{28413,9667},{29009,0},{29012,0},{29015,0},{28518,9637},{29018,0},{28519,9673},{28038,9674},{29027,0},{29028,9109},{29036,0},{29039,0},{29040,6013},{29043,6022},{29046,9683},{29052,6042},{28195,9701},{29057,0},{29060,0},{29066,0},{29063,0},{29072,0},{29069,0},{28983,9691},{29078,0},{29079,6145},{29085,6148},{29088,6156},{28984,9691},{28966,9697},{28975,9698},{29099,0},{29100,6176},{28194,9701},{29106,6194},{28812,9704},{29111,0},{29112,9604},{29131,9147},{29120,0},{28533,9707},{29126,0},{29128,6010},{27441,9710},{18855,9711},{29127,6010},{18864,9712},{29141,0},{29140,7442},{18903,9714},{28410,9730},{28767,9716},{28225,9706},{29157,9718},{29160,9721},{29168,0},{19197,9724},{19206,9725},{19224,9726},{29186,0},{29189,0},{19266,9731},{28704,9715},{29198,0},{29147,0},{19302,9733},{29204,0},{29210,0},{29117,0},{409,9757},{28654,9749},{29245,9747},{29295,9610},{28224,9738},{28837,9739},{29219,0},{1119,9741},{29212,8969},{29228,0},{478,9743},{29234,0},{1107,9741},{472,9745},{29238,7442},{1140,9741},{29243,0},{487,9764},{29252,0},{29255,0},{28954,9750},{29254,9300},{29258,0},{29261,0},{29169,9754},{1125,9741},{445,9755},{849,9741},{2736,9741},{475,9756},{2781,9741},{29211,8969},{29249,0},{421,9760},{29285,0},{1152,9741},{29301,9610},{29371,9492},{28866,9769},{28867,9769},{29412,9766},{29312,0},{29365,9569},{29116,9771},{29318,0},{29321,0},{28836,9774},{29327,0},{28126,9776},{27564,9777},{18057,9779},{29342,0},{29348,0},{29351,0},{29244,9784},{28953,9786},{29361,9266},{29366,0},{29370,9492},
{28482,9791},{29378,0},{29381,0},{29384,0},{29374,9494},{29390,0},{29387,0},{29396,0},{28125,9776},{29399,0},{28809,9800},{29406,9762},{29411,0},{29420,0},{29109,9807},{29423,0},{29435,0},{28434,9812},{27751,9813},{27750,9813},{372,9811},{29444,0},{29445,5688},{29453,0},{29452,8801},{29455,6822},{29457,5704},{22668,9820},{29463,5723},{29468,0},{29454,7040},{29517,5921},{29471,0},{29475,9526},{29474,0},{29480,0},{29483,0},{28392,9828},{29487,5861},{29495,0},{29305,9805},{29499,5878},{29496,5874},{29304,9805},{29391,9831},{29502,5892},{29507,0},{29485,9464},{29511,9715},{29426,0},{29421,9808},{29513,0},{1152,9852},{28584,9863},{1113,9843},{1965,9843},{478,3302},{29649,9843},{478,9884},{346,2704},{29658,9843},{346,9887},{29534,0},{1101,9843},{858,9843},{370,2710},{29676,9843},{370,9893},{319,3704},{29685,9843},{319,9896},{364,2712},{29694,9843},{364,9899},{1962,9843},{855,9843},{29540,0},{1968,9843},{2010,9843},{18852,9849},{1131,9843},{26403,9850},{29554,9149},{29555,0},{1119,9852},{334,3705},{29736,9843},{334,9913},{4707,9843},{1983,9843},{18867,9853},{4887,9843},{29529,2572},{795,9843},{1146,9843},{16405,9843},{16404,9843},{29564,0},{18900,9855},{1140,9852},{29573,0},{29525,0},{29151,9859},{28624,9844},{29582,0},{1125,9852},{28581,9862},{2736,9852},{1107,9852},{29594,0},{19209,9865},{2781,9852},{849,9852},{29392,9866},{19239,9868},{19245,9869},{29612,0},{29615,0},{29404,9874},{19269,9872},{1152,9857},{29508,9873},{29403,9874},{29627,0},{29634,9606},{18936,9857},{29628,9735},{29633,0},{18948,9858},{29520,9928},{29639,0},{421,9946},{29860,9842},{29645,0},{29655,2703},{29648,0},{29666,0},{28737,9889},{29672,0},{29684,0},{29675,0},{29858,0},{29693,0},{29705,0},{29702,0},{29708,0},{29544,9903},{29714,0},{29717,0},{478,9906},{29723,0},{29726,0},{28539,9909},{29730,9112},{29735,0},{29744,0},{29747,0},{29750,0},{472,9917},{29756,0},{29762,0},{29759,0},{29765,0},{29773,7443},{29772,7443},{29780,0},{29514,9950},{409,9942},{29781,6553},{29290,9951},{29789,0},{29791,9427},{29368,9929},{29801,0},{29790,9392},{29798,0},{29807,0},{29804,0},{29642,0},{28500,9936},{475,9937},{29641,9575},{29816,0},{29822,0},{29819,0},{445,9941},{29729,0},{29841,6312},{29846,0},{29849,0},{487,9955},{29868,9954},{29981,0},{29879,0},{29529,9959},{1113,9959},{1116,9959},{29885,0},{1965,9959},{29894,0},{29889,2400},{1104,9959},{2010,9959},{1218,9959},{1158,9959},{1968,9959},{29987,0},{29898,2711},{1101,9959},{852,9959},{29907,3582},{1962,9959},{29913,2374},{855,9959},{849,9968},{29449,9973},{858,9959},{29930,0},{1974,9959},{26628,9978},{29939,0},{29942,0},{4707,9959},{29943,6024},{1131,9959},{29946,3614},{2778,9959},{1119,9968},{29957,0},{4887,9959},{1983,9959},{1143,9959},{795,9959},{1146,9959},{29877,5708},{29971,9925},{29975,0},{29775,9990},{29976,6045},{30001,9632},{29367,9997},{29996,0},{29998,9694},{29999,0},{1107,9968},{30005,0},{30000,9632},{30006,6150},{28725,10005},{30009,6154},{30012,6159},{1125,9968},{30020,0},{30023,0},{2736,9968},{30027,6174},{30026,0},{30033,6181},{30038,0},{28540,10013},{29985,384},{30044,0},{29921,0},{1152,9968},{29988,9785},{29989,9785},{29871,5927},{30056,0},{30275,0},{30238,9601},{30055,10092},{29434,10020},{30071,0},{30068,0},{30077,0},{351,10024},{30083,0},{28740,10026},{30086,0},{30089,0},{30098,0},{30092,0},{30095,0},{30099,9968},{30104,0},{29541,10020},{30107,0},{30073,117},{30110,0},{30113,0},{30122,0},{30116,0},{30119,0},{30131,0},{30128,0},{30125,0},{30137,0},{30140,0},{30144,10047},{30149,0},{21435,10050},{30155,0},{30158,0},{30161,0},{30164,0},{30170,0},{30173,0},{30176,0},{30179,0},{30182,0},{17125,10020},{30185,0},{22485,10063},{21852,10062},{30188,0},{30194,0},{30195,663},{30199,9994},{30259,9948},{21582,10093},{30203,0},{29430,10019},{30210,9663},{30215,0},{30221,0},{21552,10074},{30227,0},{30236,0},{21555,10076},{21558,10077},{28803,10079},{30025,10080},{30245,0},{30249,10007},{21573,10082},{21579,10084},{30198,9994},{30263,0},{30260,0},{29448,10089},{30272,0},{30058,9810},{30282,10092},{30388,111},{421,10161},
{30051,10168},{29433,10097},{30293,0},{1119,10098},{1107,10098},{30314,0},{30310,115},{849,10098},{345,10103},{1125,10098},{30332,0},{369,10111},{30334,123},{30344,0},{30349,106},{363,10119},{30358,121},{30366,7024},{2736,10098},{30373,9284},{318,10116},{2781,10098},{478,10127},{30393,7028},{333,10129},{1140,10098},{30413,0},{30412,9923},{30430,7154},{30422,0},{30419,0},{21853,10141},{30429,7222},{30377,0},{27852,10124},{29583,10147},{30446,0},{30449,0},{29032,10104},{475,10152},{30450,7101},{28902,10151},{28998,10153},{472,10155},{409,10156},{30462,7104},{30473,0},{30477,7111},{30476,0},{30482,0},{30491,0},{445,10162},{30289,9958},{30288,9958},{30505,10017},{30495,10015},{30264,10164},{30501,7123},{487,10146},{30500,0},{30684,7122},{30509,0},{28909,10171},{30692,0},{30521,0},{29878,10174},{1116,10174},{30527,0},{1113,10174},{30530,0},{1965,10174},{29031,10177},{858,10174},{612,10174},{855,10174},{30539,0},{2010,10174},{1104,10174},{1218,10174},{30545,0},{849,10182},{1101,10174},{852,10174},{1158,10174},{1962,10174},{2850,10189},{30572,0},{1968,10174},{1131,10174},{1974,10174},{30574,10125},{1119,10182},{4707,10174},{30581,0},{30512,0},{2853,10195},{1983,10174},{2778,10174},{30593,0},{4887,10174},{1143,10174},{795,10174},{29769,10198},{1146,10174},{17134,10174},{30599,0},{17133,10174},{2781,10182},{30602,0},{30426,10201},{30611,0},{30614,0},{30680,0},{30573,10205},{30620,0},{30623,0},{29793,10208},{1125,10182},{1107,10182},{29995,10207},{2736,10182},{30632,0},{30631,9566},{2979,10212},{30641,0},{29182,10216},{30635,0},{30647,0},{30644,0},{2982,10217},{29181,10216},{28806,10218},{29274,10211},{29277,10215},{6354,10219},{28908,10171},{30677,0},{30687,666},{30518,0},{30683,0},{30285,10233},{30874,9830},{487,10309},{30208,10288},{29877,10236},{30712,10021},{30716,0},{29880,10239},{30722,0},{30728,0},{29895,10241},{30731,0},{30734,0},{30737,0},{29901,10247},{30740,0},{30746,0},{30752,0},{30749,0},{30758,0},{29916,10251},{30764,0},{30761,0},{30767,0},{30770,0},{445,10257},{30779,0},{29931,10258},{30782,0},{30791,0},{30788,0},{30785,0},{30794,0},{29952,10265},{478,10267},{30806,0},{30809,0},{29961,10270},{30815,0},{30818,0},{30821,0},{30824,0},{30827,0},{30836,0},{30839,0},{30607,10280},{30606,10280},{30845,0},{29188,10299},{30857,0},{28002,10286},{30204,10287},{30866,0},{30869,0},{30872,0},{30879,9530},{30878,0},{30873,9794},{472,10295},{29185,10298},{30888,10297},{30908,0},{475,10301},{30914,0},{30911,0},{409,10306},{30917,0},{30923,0},{30889,10297},{30696,6203},{30938,0},{31129,10234},{30946,10235},{30937,10284},{1119,10317},{30954,10100},{30957,10099},{30966,10105},{29220,10323},{1107,10317},{30978,10109},{30953,0},{1125,10317},{30990,10113},{30993,6015},{30996,10115},{849,10317},{30999,10117},{31005,10120},{31017,10123},{2736,10317},{31023,6025},{28939,10342},{31029,10128},{31035,10130},{2781,10317},{31044,10133},{31047,10134},{1140,10317},{31053,10135},{30414,10353},{18120,10356},{31072,10281},{31071,10359},{31076,0},{31123,10144},{30643,10371},{30947,0},{28279,10362},{28938,10342},{31088,0},{31091,0},{30207,10364},{31095,6157},{31098,6161},{30941,0},{31104,906},{31103,0},{31110,10158},{31113,10300},{31118,0},{31109,0},{31122,10144},{31111,10220},{30702,10376},{31132,10224},{31131,10224},{30944,0},{487,10381},{31213,10194},{31146,10226},{30292,10385},{30522,10385},{31157,0},{31160,0},{1116,10385},{478,10388},{1113,10385},{1158,10385},{801,10385},{852,10385},{1965,10385},{858,10385},{29536,10390},{472,10389},{31172,0},{612,10385},{31175,0},{445,10392},{30336,10393},{1104,10385},{1218,10385},{31184,0},{31196,0},{21432,10396},{475,10397},{1962,10385},{2010,10385},{1101,10385},{855,10385},{1968,10385},{409,10401},{1974,10385},{31208,0},{1131,10385},{31212,10194},{21438,10403},{421,10406},{2778,10385},{4707,10385},{31223,0},{4887,10385},{1983,10385},{31229,0},{31232,0},{31227,9988},{1143,10385},{1146,10385},{795,10385},{30829,10412},{31238,0},{15115,10385},{31155,5038},{21456,10413},{31244,0},{31247,0},{30849,10416},{31257,10230},
{31265,0},{28383,10422},{30216,10423},{31274,0},{21561,10425},{21567,10426},{31284,7192},{31119,10432},{31292,0},{31295,0},{31304,0},{31256,0},{31307,0},{31310,0},{31316,0},{31322,0},{31328,0},{30627,10503},{31137,10513},{31456,9919},{31331,0},{31334,0},{30949,10443},{31338,9962},{31343,0},{30306,10448},{31349,0},{31352,0},{31358,0},{31355,0},{31361,0},{31364,0},{31369,10180},{31367,0},{29535,10457},{31376,0},{31381,10183},{31377,9970},{31345,10102},{31391,0},{31388,0},{30540,10456},{30549,10460},{31392,9974},{445,10466},{31395,9975},{31406,0},{30561,10467},{31412,0},{31409,0},{31415,0},{31402,10187},{31418,0},{31420,10192},{31424,0},{31430,0},{31425,9983},{30576,10473},{478,10478},{31433,0},{31438,10196},{31442,0},{31445,0},{31446,9986},{30588,10479},{31451,0},{31454,0},{16393,10487},{31458,9989},{31466,0},{31461,5464},{31472,0},{31469,0},{30828,10492},{31475,0},{31484,0},{421,10495},{22336,10498},{31496,0},{31499,0},{31083,10500},{31505,0},{31508,0},{475,10504},{472,10505},{409,10506},{30883,10502},{30663,10508},{31125,10509},{31523,0},{30666,10510},{30924,10514},{30930,10516},{31141,10590},{31729,9809},{31775,0},{30948,10520},{31568,0},{31161,10523},{31572,10320},{31581,10324},{31584,10327},{31587,10325},{28929,10533},{31604,0},{30987,10535},{31185,10537},{31608,162},{31616,0},{31620,10334},{31197,10543},{31610,0},{31200,10545},{31741,10420},{31662,10340},{31215,10556},{31671,10170},{31673,0},{31683,10347},{31224,10563},{31233,10568},{31707,10352},{31712,0},{31721,0},{31728,9809},{31733,0},{22335,10578},{31556,0},{31255,10587},{31742,0},{30882,10582},{31553,0},{31749,9867},{30030,10584},{28930,10533},{31756,9945},{31759,10085},{31754,0},{31760,0},{31755,9945},{31766,0},{31763,0},{31750,9867},{31772,0},{30940,10517},{31778,0},{31140,10643},{31786,10383},{31153,10592},{31790,0},{1119,10597},{478,10598},{849,10597},{1152,10597},{1125,10597},{1107,10597},{31811,0},{31823,0},{472,10606},{475,10610},{445,10612},{2736,10597},{31841,0},{409,10615},{31850,0},{31851,10266},{2781,10597},{421,10619},{1140,10597},{31065,10623},{31874,0},{31880,0},{31933,10515},{31932,10440},{31783,10518},{31887,10420},{31892,0},{31281,10631},{31898,0},{31901,0},{31782,10627},{31914,10012},{29821,10637},{31905,10589},{31533,10641},{31926,10640},{31919,0},{31781,0},{31906,10507},{31927,10588},{31149,10595},{32066,0},{31152,10645},{32069,0},{32057,0},{32072,0},{30048,10686},{31946,0},{31947,10521},{31952,0},{31575,10651},{31958,0},{31964,0},{31961,0},{31967,0},{31812,10656},{31978,10547},{31954,10525},{31982,0},{31641,10659},{31985,0},{29344,10662},{29343,10662},{31997,0},{32000,0},{32002,10564},{31692,10667},{32006,0},{32009,0},{31480,10669},{29568,10670},{29829,10678},{32018,0},{32054,0},{32021,0},{32027,0},{32033,0},{31287,10676},{32024,0},{29832,10679},{32042,0},{32045,0},{32051,0},{31940,0},{32078,0},{31743,10725},{31336,10697},{32096,0},{31155,10697},{32097,10101},{30535,10700},{1116,10697},{32100,10178},{1113,10697},{1158,10697},{32103,10106},{32106,10107},{30324,10703},{801,10697},{612,10697},{1965,10697},{32117,0},{32112,10118},{1101,10697},{858,10697},{2010,10697},{1104,10697},{1962,10697},{1218,10697},{852,10697},{32120,0},{32123,0},{855,10697},{1974,10697},{32130,10126},{1968,10697},{32135,0},{31674,10711},{32138,0},{1131,10697},{32142,10132},{4707,10697},{1983,10697},{2778,10697},{4887,10697},{32151,10136},{795,10697},{1143,10697},{1146,10697},{31479,10718},{17152,10697},{32159,0},{32091,5717},{32162,0},{30610,10720},{31252,10721},{31903,10727},{31299,10726},{32165,0},{32183,0},{31938,10691},{32189,0},{32090,0},{31306,10729},{31737,10734},{32210,0},{32216,0},{31797,10739},{32225,0},{32228,0},{32231,0},{31800,10745},{32234,0},{31806,10747},{31803,10746},{32246,0},{32249,0},{32252,0},{32261,0},{31827,10752},{32254,10121},{32270,0},{32264,0},{32267,0},{32273,0},{32279,0},{32276,0},{32288,0},{32291,0},{31842,10764},{32297,0},{32206,9573},{31675,10766},{32303,0},{32309,0},{31854,10770},{32315,0},{32318,0},{32321,0},{32324,0},{31863,10775},
{32333,0},{32330,0},{32339,0},{32336,0},{32348,0},{30846,10783},{32352,10496},{32207,0},{32357,0},{32363,0},{32360,0},{31902,10789},{31251,10788},{30363,10751},{32372,0},{31536,10791},{31311,10792},{31909,10787},{32377,10437},{32384,0},{32211,10795},{32017,10794},{32212,10795},{478,10797},{32394,10526},{32406,10531},{445,10801},{487,10803},{475,10804},{31815,10805},{31617,10806},{32431,9778},{32430,9778},{472,10809},{32433,10548},{32445,10550},{32454,10555},{409,10819},{32464,10055},{32468,0},{32304,10823},{421,10825},{32484,10566},{32491,9922},{29766,10830},{32493,10571},{31725,10833},{32508,10496},{32511,10625},{32535,10732},{32540,0},{30670,10841},{32510,0},{32514,9573},{32465,0},{31908,10840},{32546,0},{30669,10841},{32531,0},{32528,0},{32543,0},{32545,10439},{32534,0},{32166,10850},{32555,0},{32558,0},{1119,10853},{32562,10740},{32091,10852},{849,10853},{1116,10852},{1152,10853},{801,10852},{32573,0},{32579,0},{1113,10852},{31383,10858},{30552,10858},{1104,10852},{1158,10852},{858,10852},{32571,10114},{1107,10853},{31632,10862},{1962,10852},{1125,10853},{612,10852},{32591,0},{1101,10852},{30558,10859},{1965,10852},{2010,10852},{32563,10740},{852,10852},{1218,10852},{2736,10853},{855,10852},{32606,0},{32604,10170},{32609,0},{1968,10852},{1974,10852},{1131,10852},{32617,9919},{2778,10852},{2781,10853},{29757,10872},{4707,10852},{1983,10852},{4887,10852},{1143,10852},{1140,10853},{32627,0},{1146,10852},{795,10852},{32341,10877},{32633,0},{32556,6304},{32636,0},{32637,7613},{31633,10862},{30693,10893},{32654,0},{32655,9985},{31038,10869},{32615,0},{32661,10314},{32666,0},{32660,0},{32684,0},{32685,10796},{31945,10896},{32693,0},{32699,0},{32696,0},{32705,0},{32702,0},{32708,0},{32712,10185},{32711,0},{32726,0},{32723,0},{30559,10905},{32720,0},{32729,0},{32857,10145},{32741,0},{32735,0},{32732,0},{32747,0},{32744,0},{32762,0},{32759,0},{32750,0},{32753,0},{32768,0},{32765,0},{32774,0},{32777,0},{32780,0},{32783,0},{31992,10928},{32789,0},{31039,10930},{32795,0},{32798,0},{32801,0},{32803,10716},{31692,10934},{32807,0},{32810,0},{32813,0},{32816,0},{32819,0},{32822,0},{32825,0},{32828,0},{32837,0},{32834,0},{32340,10947},{18913,10896},{32840,0},{32846,0},{32847,10497},{32850,7558},{29004,10953},{32867,0},{32864,0},{32738,0},{32873,0},{32858,0},{32670,10958},{32193,10959},{32172,10960},{32647,11023},{32854,11022},{32885,0},{32884,10962},{32889,10321},{32397,10965},{32898,10800},{32901,10328},{31608,10968},{32580,10968},{32909,0},{32916,10971},{32921,0},{32929,10044},{32925,10808},{32937,10812},{32931,10336},{32754,10981},{32952,10338},{32448,10985},{32920,10709},{32964,10817},{32970,10344},{32978,0},{32983,10871},{32988,10824},{32997,10667},{32996,0},{33003,10350},{33000,10827},{33021,10354},{33018,10832},{33032,0},{33035,0},{33044,0},{33045,6841},{33068,0},{30435,11021},{33071,0},{33050,0},{32930,0},{33054,11017},{32984,0},{33049,10360},{33074,0},{33081,10962},{32677,11024},{33086,0},{32565,11029},{33092,0},{32568,11032},{32580,11033},{373,11034},{31626,11035},{31641,11037},{33116,0},{32595,11041},{32598,11043},{33137,0},{32601,11047},{33144,10713},{33155,0},{32619,11053},{32628,11055},{32505,11057},{31875,11059},{33077,0},{33205,11066},{33192,10360},{32646,11063},{33080,0},{33195,9976},{31011,11038},{33200,0},{33206,0},{33201,10956},{32853,11061},{33188,0},{33128,0},{32676,11069},{421,11087},{33212,0},{1119,11072},{33215,0},{478,11073},{1152,11072},{445,11075},{1107,11072},{849,11072},{31972,11076},{33231,10611},{33237,10659},{31012,11080},{472,11081},{1125,11072},{475,11082},{409,11084},{2736,11072},{2781,11072},{33006,11086},{1140,11072},{33265,10199},{33264,10277},{33269,0},{33034,11089},{33272,0},{30933,11102},{33273,11095},{33281,0},{33284,0},{33282,11095},{33302,0},{33293,0},{33297,11098},{33290,0},{33305,0},{33314,0},{33417,11137},{31134,11133},{33416,0},{33318,10964},{31597,11109},{33323,0},{32557,11108},{31596,11109},{32556,11108},{33332,0},{1116,11108},{33334,10608},{1158,11108},{33338,0},{1101,11108},{33333,10538},
{33341,0},{33108,11114},{801,11108},{1104,11108},{33347,0},{1113,11108},{33350,0},{858,11108},{33352,11042},{31654,11118},{31660,11120},{31653,11118},{33359,0},{612,11108},{31659,11120},{1965,11108},{2010,11108},{852,11108},{1962,11108},{1218,11108},{33365,0},{855,11108},{33368,0},{31680,11121},{1974,11108},{1968,11108},{33371,0},{1131,11108},{4707,11108},{33374,0},{31558,11105},{33315,10519},{2778,11108},{1983,11108},{33377,0},{4887,11108},{33380,0},{33383,0},{795,11108},{1143,11108},{1146,11108},{33174,11128},{15835,11108},{33324,5278},{33390,10671},{33407,0},{33353,0},{33395,0},{33616,10441},{33060,11141},{33437,0},{33441,10530},{33436,11148},{33438,11074},{33452,0},{33449,0},{33453,10970},{33458,0},{33461,0},{33465,10546},{33464,0},{33473,0},{33474,10549},{33470,0},{33479,0},{33485,0},{33482,0},{33497,0},{32946,11164},{33491,0},{33500,0},{33509,0},{33510,10552},{33515,0},{33223,11146},{33524,0},{33521,0},{33518,0},{31323,11205},{33527,0},{33530,0},{33533,0},{31681,11178},{33539,0},{33545,0},{33540,10562},{33548,0},{33551,0},{33552,10565},{33557,0},{33564,11187},{33560,0},{33572,0},{33569,0},{33562,11188},{33575,0},{33576,10572},{33581,0},{33590,0},{33593,0},{33596,0},{33599,0},{33605,0},{33608,0},{33612,11103},{33609,11140},{32047,11143},{33428,0},{33431,0},{33788,0},{33619,11142},{33623,0},{33624,11148},{33076,11207},{33093,11209},{33632,0},{33635,0},{33645,10974},{33642,10861},{32736,11216},{33234,11216},{33117,11217},{33654,10978},{33120,11220},{33486,11222},{33669,10983},{33680,0},{33138,11230},{32967,11231},{33710,0},{33711,10991},{33722,0},{33150,11243},{33732,10997},{33162,11246},{33746,0},{33750,11004},{33168,11254},{33771,11008},{33039,11259},{22839,11261},{32046,11266},{33618,11265},{33794,0},{33396,11269},{33812,0},{33815,0},{33639,11274},{1119,11273},{478,11272},{849,11273},{1104,11271},{487,11276},{33324,11271},{1107,11273},{1152,11273},{33833,0},{1158,11271},{1116,11271},{472,11279},{33848,0},{445,11281},{33853,11168},{801,11271},{858,11271},{33504,11284},{1113,11271},{1101,11271},{1125,11273},{475,11285},{1965,11271},{612,11271},{33902,0},{31677,11287},{1962,11271},{2010,11271},{1218,11271},{852,11271},{33255,11289},{2736,11273},{855,11271},{409,11290},{1968,11271},{1974,11271},{421,11292},{1131,11271},{2781,11273},{33753,11293},{2778,11271},{4707,11271},{1983,11271},{31474,11295},{4887,11271},{33885,10574},{1143,11271},{1140,11273},{795,11271},{1146,11271},{33601,11297},{33893,0},{33896,0},{33813,6050},{33684,11267},{33899,0},{33806,0},{33273,11269},{33789,11267},{33908,0},{31671,11327},{33909,11212},{33214,11304},{33920,0},{33922,10541},{33917,0},{31623,11307},{33926,0},{33834,11310},{33929,0},{33931,10542},{33935,0},{33938,0},{33942,11219},{31626,11310},{33941,0},{33947,0},{33951,10706},{33950,0},{33952,10760},{33958,10761},{33957,10707},{33965,0},{33968,0},{33974,0},{33971,0},{33982,10557},{33977,0},{33980,0},{33989,0},{33986,0},{33995,0},{32467,11331},{33983,0},{33998,0},{34001,0},{34007,0},{34004,0},{34013,0},{32146,11339},{34016,0},{32145,11339},{34022,0},{34025,0},{34028,0},{34031,0},{34034,0},{34037,0},{34040,0},{31701,11342},{34043,0},{34046,0},{34049,0},{34052,0},{34055,0},{34061,0},{34058,0},{34064,0},{34067,0},{33600,11357},{18151,11304},{34070,0},{34079,0},{34074,7727},{34082,0},{33234,11310},{33792,11361},{34091,0},{33432,11361},{34095,11330},{34105,11367},{34111,10658},{34107,10807},{34110,10658},{34103,0},{30565,11372},{34116,10188},{34119,10813},{34124,0},{34125,11221},{31980,11376},{34130,0},{34134,10814},{33789,11365},{34143,11224},{30343,11380},{34151,0},{34152,11227},{34146,11225},{34160,0},{33705,11391},{34157,0},{34177,10663},{34176,10663},{34182,10820},{34099,10170},{33717,11395},{32610,11397},{32979,11399},{34098,10170},{34163,0},{34206,11241},{34212,10826},{34223,0},{34227,11247},{31702,11410},{34236,10829},{34247,0},{34242,11253},{34263,10834},{34266,11256},{34277,0},{34280,0},{34289,0},{34299,11134},{34194,11049},{34095,11267},{34086,11430},{34295,0},{34298,0},{34305,11364},
{34310,0},{34311,11371},{34319,0},{33825,11438},{34104,11440},{32593,11441},{32592,11441},{33079,11480},{34328,0},{33840,11443},{34340,0},{34137,11444},{33849,11448},{34349,0},{32124,11447},{34354,10904},{34350,11044},{34155,11452},{34356,11229},{34370,0},{34379,0},{34114,11437},{33864,11460},{34384,10868},{34391,0},{34394,0},{34383,10868},{34397,0},{33873,11468},{34414,10620},{33882,11472},{34415,0},{31866,11473},{33888,11475},{33780,11477},{22674,11479},{32379,11485},{34452,11019},{34446,11263},{34389,11049},{34451,0},{34460,0},{1107,11487},{34466,0},{478,11490},{34475,0},{34483,11304},{1119,11487},{34481,0},{849,11487},{445,11496},{34496,0},{34482,11271},{33954,11497},{487,11503},{34508,0},{34505,0},{34501,11228},{34484,0},{472,11499},{1152,11487},{1116,11494},{1158,11494},{34514,0},{1104,11494},{1113,11494},{801,11494},{33460,11524},{34374,11506},{1101,11494},{475,11509},{34519,11458},{858,11494},{612,11494},{1125,11487},{34159,11498},{1965,11494},{2010,11494},{34008,11512},{34541,0},{1962,11494},{852,11494},{1218,11494},{855,11494},{409,11515},{2736,11487},{1974,11494},{1968,11494},{34550,0},{2781,11487},{421,11517},{31860,11518},{34549,11345},{1131,11494},{34559,0},{2778,11494},{4707,11494},{1983,11494},{34561,10719},{1140,11487},{4887,11494},{34560,10781},{1143,11494},{795,11494},{1146,11494},{34279,11521},{34565,0},{34568,0},{34482,5737},{34577,0},{33498,11500},{34581,11330},{34580,0},{34467,11530},{34589,0},{34594,11492},{34596,11377},{34601,0},{34485,11535},{34610,0},{34593,11492},{34604,0},{34612,10923},{34611,10923},{34622,0},{34619,0},{34633,11545},{34623,11542},{34639,11083},{34643,0},{34646,0},{34625,0},{34634,0},{34649,0},{34638,11083},{34655,0},{34661,0},{34658,0},{34667,0},{34664,0},{34670,0},{34365,11538},{34679,0},{34672,11510},{34682,0},{34685,0},{34671,11510},{34688,0},{34694,0},{34691,0},{34697,0},{34542,11566},{34703,0},{34706,0},{34709,0},{34712,0},{34714,11052},{34718,0},{34713,10998},{34721,0},{34724,0},{34730,0},{34725,11413},{34733,0},{34736,0},{34742,0},{32622,11577},{34748,0},{34751,0},{34754,0},{34757,0},{34760,0},{34763,0},{34766,0},{34769,0},{34772,0},{34775,0},{34434,11593},{17212,11545},{34782,7614},{34793,0},{34787,0},{34449,11596},{34796,0},{34797,11136},{35001,11267},{34584,11670},{35009,0},{34803,10980},{34802,0},{34811,0},{34817,0},{34823,0},{34824,10987},{34818,10986},{34827,11538},{34161,11609},{34832,0},{34629,11611},{34845,11550},{34844,0},{34848,11388},{34854,11502},{34860,11389},{34857,11494},{34851,11390},{1116,11619},{34866,11393},{1104,11619},{1158,11619},{34521,11625},{801,11619},{1113,11619},{34886,0},{858,11619},{34901,0},{34896,10995},{34807,11600},{34865,0},{1101,11619},{33721,11638},{33726,11637},{612,11619},{2010,11619},{1965,11619},{852,11619},{34920,11406},{1962,11619},{1218,11619},{34931,0},{34932,11003},{34937,0},{34938,11411},{855,11619},{1968,11619},{34944,11005},{34949,0},{1974,11619},{32623,11650},{34961,0},{1131,11619},{34962,11417},{4707,11619},{2778,11619},{1983,11619},{34974,11009},{4887,11619},{34983,11423},{1143,11619},{795,11619},{1146,11619},{34994,0},{19725,11666},{34997,0},{17224,11619},{17223,11619},{33805,11672},{34953,11723},{35176,11519},{35019,11481},{35035,11167},{34806,11676},{34335,11675},{35031,11604},{33501,11678},{34362,11681},{35032,11604},{34359,11680},{35051,0},{35046,11455},{35057,0},{35064,11286},{35069,0},{35075,0},{35022,11330},{35081,0},{35087,0},{35093,0},{35090,0},{34891,11697},{35096,0},{35099,0},{35100,11466},{35105,0},{34401,11703},{35114,0},{35120,0},{35126,0},{35129,0},{35135,0},{35132,0},{35138,0},{35144,0},{35147,0},{34410,11717},{35162,0},{35165,0},{34422,11722},{35174,0},{35177,0},{32829,11726},{35183,0},{35189,0},{35192,0},{35195,0},{34428,11732},{35201,0},{35207,0},{35210,0},{35213,0},{34284,11738},{35228,0},{35240,0},{478,11754},{35246,0},{472,11749},{35252,0},{445,11752},{1119,11753},{849,11753},{35255,0},{35270,0},{35052,11755},{1107,11753},{35061,11757},{1152,11753},{487,11758},{35286,11624},{35285,0},{35230,11619},
{35229,11619},{35289,11627},{35284,11398},{1158,11743},{1116,11743},{34890,11764},{35295,11629},{34209,11767},{35300,0},{34828,11769},{1104,11743},{475,11771},{1125,11753},{801,11743},{1113,11743},{858,11743},{34215,11774},{1101,11743},{612,11743},{35334,11642},{35323,11405},{1965,11743},{1962,11743},{2736,11753},{2010,11743},{1218,11743},{852,11743},{409,11781},{855,11743},{421,11784},{35234,0},{35355,11652},{35358,11581},{2781,11753},{1968,11743},{35233,11745},{1974,11743},{1131,11743},{35363,0},{35370,11656},{4707,11743},{2778,11743},{32839,11792},{1140,11753},{1983,11743},{4887,11743},{35376,11012},{35382,11662},{1143,11743},{795,11743},{34996,11797},{35393,0},{1146,11743},{18168,11743},{35231,0},{18177,11798},{35013,11799},{35427,11808},{35037,11801},{35408,0},{35242,11800},{35409,11612},{35241,11800},{35420,0},{33687,11807},{35414,0},{34515,11807},{35417,0},{33960,11802},{35435,0},{35432,0},{34662,11813},{35438,0},{33696,11804},{35441,0},{35445,11398},{35453,0},{35459,0},{35465,0},{35462,0},{35468,0},{35483,0},{35480,0},{35122,11828},{35489,0},{35121,11828},{35492,0},{35498,0},{35495,0},{35501,0},{35504,0},{35507,0},{35516,0},{35519,0},{35522,0},{35525,0},{33757,11844},{35531,0},{35528,0},{33756,11844},{35537,0},{35540,0},{35235,11847},{35555,0},{35552,0},{35549,0},{35558,0},{33582,11846},{35561,0},{35564,0},{35573,0},{35576,0},{35579,0},{35582,0},{35585,0},{35588,0},{35591,0},{35597,0},{35600,0},{35220,11868},{35609,0},{35612,0},{18169,11871},{35618,0},{35818,11872},{35621,0},{33697,11882},{35627,0},{33961,11876},{34840,11878},{35636,0},{35640,11233},{35652,11234},{35651,0},{35645,0},{35639,0},{35657,0},{35624,0},{35277,11886},{35661,11238},{35667,11623},{35666,0},{35672,0},{34878,11891},{35678,0},{35230,11894},{35620,11092},{35688,11770},{35685,11768},{35106,11897},{35229,11894},{35694,11773},{1158,11894},{1116,11894},{34923,11903},{35708,0},{35703,11245},{1104,11894},{1113,11894},{801,11894},{34407,11906},{1101,11894},{858,11894},{612,11894},{35733,11249},{2010,11894},{852,11894},{35742,11782},{35750,0},{1962,11894},{1218,11894},{855,11894},{35759,0},{33379,11918},{1965,11894},{35763,11255},{1974,11894},{35775,11788},{35774,0},{1968,11894},{1131,11894},{4707,11894},{35784,11791},{2778,11894},{35790,11258},{1983,11894},{4887,11894},{35802,11795},{1143,11894},{35810,0},{795,11894},{17226,11894},{17227,11894},{18951,11938},{1146,11894},{35819,0},{35826,11092},{35832,11877},{35837,0},{34839,11947},{35840,0},{34371,11951},{35831,0},{35070,11948},{35076,11949},{35854,11457},{35867,0},{35082,11956},{35871,11462},{35882,0},{35883,11511},{35058,11950},{35891,0},{35903,0},{35900,0},{35833,11877},{35909,0},{35912,0},{35139,11973},{35924,0},{35830,11874},{34930,11977},{35933,0},{35930,0},{35927,0},{35936,0},{35939,0},{35942,0},{35157,11981},{35951,0},{35948,0},{35960,0},{35963,0},{35966,0},{35766,11989},{35971,11787},{35184,11992},{35975,0},{35981,0},{35970,11855},{33585,11995},{35990,0},{35993,0},{35996,0},{36002,0},{35202,12001},{36008,0},{36011,0},{36017,0},{36023,0},{35004,12006},{36028,12010},{36026,0},{36032,0},{36035,0},{36036,11940},{36041,0},{35058,12015},{34863,12015},{36044,0},{1119,12017},{36050,0},{478,12021},{445,12020},{35862,12019},{36056,0},{1107,12017},{849,12017},{36069,11958},{472,12024},{1152,12017},{487,12025},{33148,12027},{36086,0},{36093,11900},{1125,12017},{36099,11904},{36094,11900},{36102,11905},{475,12035},{36108,11907},{35148,12039},{36113,0},{36116,0},{35340,12040},{1113,12029},{1158,12029},{409,12045},{36138,11917},{1104,12029},{2736,12017},{801,12029},{1101,12029},{858,12029},{1965,12029},{2010,12029},{612,12029},{1218,12029},{1116,12029},{1962,12029},{36155,0},{36158,0},{2781,12017},{421,12053},{852,12029},{36170,0},{36165,11926},{36157,12051},{855,12029},{36173,0},{1968,12029},{1974,12029},{1131,12029},{36183,11931},{1140,12017},{33388,12062},{4707,12029},{36186,11129},{2778,12029},{1983,12029},{36195,11935},{4887,12029},{795,12029},{35224,12067},{36203,0},{18174,12069},{36206,0},{1143,12029},
{36027,12070},{1146,12029},{16471,12029},{36218,0},{15864,12029},{34302,12073},{36227,0},{36222,11950},{35856,12076},{35280,12078},{36067,12079},{36233,0},{36242,0},{36246,11452},{36066,12079},{36245,0},{34675,12086},{36251,0},{34674,12086},{36257,0},{36254,0},{36263,0},{34524,12080},{34686,12088},{36266,0},{36269,0},{36270,11705},{36268,12029},{33432,12073},{36275,0},{36278,0},{35512,12096},{35511,12096},{36296,0},{36308,0},{36311,0},{36314,0},{36320,0},{36329,0},{36323,0},{36326,0},{36332,0},{36335,0},{34737,12104},{36338,0},{36344,0},{36341,0},{36350,0},{36347,0},{36354,12117},{36361,11418},{36359,0},{36365,0},{36360,11418},{36377,0},{36383,0},{36386,0},{36389,0},{36395,0},{36398,0},{36401,0},{36404,0},{36407,0},{36410,0},{36416,0},{36419,0},{36422,0},{35223,12141},{36434,0},{36440,0},{36437,0},{36428,0},{36443,0},{36449,0},{36452,0},{36461,0},{35859,12151},{36458,0},{36468,11396},{36464,0},{36479,0},{35449,12154},{34846,12158},{34525,12157},{35877,12160},{36486,11400},{36495,11401},{36491,0},{36078,12164},{36503,0},{36506,0},{36498,11631},{36507,11634},{35458,12170},{35836,12171},{36518,0},{36521,0},{35682,12170},{36510,12029},{35916,12174},{36525,11408},{1116,12170},{1104,12170},{36533,0},{1158,12170},{35154,12178},{1965,12170},{801,12170},{858,12170},{1101,12170},{1962,12170},{34738,12181},{612,12170},{2010,12170},{36552,11416},{36147,12185},{852,12170},{36566,0},{1218,12170},{1113,12170},{855,12170},{36584,0},{36586,12057},{36588,11419},{1968,12170},{1974,12170},{36585,12126},{36596,0},{1131,12170},{4707,12170},{2778,12170},{36609,11424},{1983,12170},{4887,12170},{1143,12170},{1146,12170},{17233,12170},{795,12170},{36638,0},{17232,12170},{34569,12219},{36660,12155},{36663,12222},{35448,12224},{36669,11814},{36689,0},{36683,0},{36680,0},{36686,0},{35454,12230},{36701,0},{35469,12231},{36708,11824},{36713,0},{36716,0},{36724,11301},{36728,0},{36731,0},{36734,0},{35508,12245},{36740,0},{36743,0},{36661,12155},{36749,0},{36685,12229},{36755,0},{36758,0},{36752,0},{36761,0},{36764,0},{36770,0},{36767,0},{36773,0},{36776,0},{35544,12259},{36785,0},{36791,0},{36794,0},{36797,0},{36366,12266},{35568,12268},{36809,0},{36803,0},{36815,0},{34260,12272},{36812,0},{36821,0},{36824,0},{36827,0},{35592,12276},{36833,0},{36836,0},{36839,0},{36842,0},{36844,12142},{36848,0},{36843,12216},{36854,0},{33903,12241},{36857,0},{36863,0},{36860,0},{478,12289},{36866,0},{36870,12293},{849,12292},{1119,12292},{472,12294},{1107,12292},{36705,12295},{445,12296},{487,12297},{1152,12292},{36897,12240},{36902,0},{36903,12302},{36909,12176},{36915,12041},{475,12304},{36918,12042},{36910,12176},{36087,12300},{1125,12292},{1116,12300},{36924,12043},{36936,11913},{36929,0},{35745,12311},{36540,12313},{36937,11913},{1104,12300},{1158,12300},{36546,12314},{1113,12300},{858,12300},{2010,12300},{1965,12300},{409,12319},{612,12300},{801,12300},{36960,12050},{2736,12292},{1101,12300},{36579,12322},{1218,12300},{852,12300},{36974,0},{36591,12323},{36802,12324},{421,12325},{1962,12300},{36990,12059},{2781,12292},{855,12300},{36989,0},{1968,12300},{36603,12331},{1974,12300},{1131,12300},{36999,12063},{34069,12334},{1140,12292},{4707,12300},{36621,12335},{37002,11427},{2778,12300},{1983,12300},{1143,12300},{37011,12066},{795,12300},{37018,123},{36639,12340},{37019,0},{37025,0},{17265,12300},{1146,12300},{4887,12300},{37031,0},{32643,12344},{37035,12161},{36675,12346},{37042,12291},{35679,12348},{37049,0},{37052,0},{37041,12291},{37055,0},{37057,11825},{37066,11772},{37064,0},{37056,11825},{37061,0},{37065,11772},{37068,11899},{37073,0},{37070,0},{37036,12161},{35890,12359},{37085,0},{37090,12100},{37100,0},{37103,0},{37089,12038},{37106,0},{37112,0},{37127,0},{37130,0},{37136,0},{37139,0},{37151,0},{37154,0},{37145,0},{37147,11923},{37142,0},{37160,0},{37146,11923},{37163,0},{37169,0},{37172,0},{36981,12391},{37183,11657},{37187,0},{37196,0},{37193,0},{37182,11657},{37202,0},{37208,0},{37211,0},{37217,0},{37220,0},{37223,0},{37229,0},{37232,0},{37235,0},{37238,0},
{37244,0},{37246,124},{37251,148},{37245,162},{37026,12418},{17266,12359},{37259,0},{37262,0},{37265,0},{37266,11361},{37271,0},{37270,10628},{37277,0},{37274,0},{37283,0},{37293,11636},{37287,11635},{35887,12427},{37292,0},{36702,12428},{36894,12434},{37308,11639},{37307,0},{37316,0},{37317,11775},{37313,0},{37320,11826},{36744,12443},{37334,0},{37279,12425},{37343,0},{37344,12179},{37338,11647},{35955,12449},{37350,12183},{37353,12186},{36963,12455},{37377,11655},{37382,0},{37389,12199},{37394,0},{37396,12329},{37404,11659},{37395,12399},{37409,0},{37413,12202},{37422,11663},{37431,12208},{37437,12210},{37445,0},{37451,0},{37448,0},{36442,12484},{37454,0},{18219,12486},{37457,0},{32380,12489},{31884,12490},{37475,0},{37278,12492},{36696,12493},{35886,12494},{37485,11965},{35892,12496},{37493,0},{37499,0},{37502,0},{35904,12501},{37512,11971},{37520,0},{37333,12507},{37523,0},{37610,0},{35952,12512},{37300,12499},{37529,0},{37541,0},{36769,12513},{35982,12517},{36984,12520},{35997,12522},{37565,0},{37572,11660},{37571,0},{36012,12526},{37590,12531},{36651,12533},{37604,0},{37613,0},{37622,0},{37619,0},{37625,0},{445,12543},{849,12544},{37299,12545},{1119,12544},{478,12542},{472,12547},{1107,12544},{37509,12546},{487,12548},{1152,12544},{37297,12540},{1125,12544},{37524,12551},{37652,0},{36901,12552},{36900,12552},{475,12553},{37664,0},{1116,12552},{37474,12552},{36945,12556},{1158,12552},{1113,12538},{1965,12552},{1158,12538},{1116,12538},{801,12552},{1113,12552},{858,12552},{1104,12552},{2736,12544},{858,12538},{2010,12552},{2010,12538},{409,12558},{612,12552},{801,12538},{1965,12538},{1101,12552},{1104,12538},{1101,12538},{1962,12552},{612,12538},{1218,12552},{852,12552},{37564,12559},{1218,12538},{37679,0},{1962,12538},{421,12560},{852,12538},{855,12552},{2781,12544},{37688,0},{855,12538},{1968,12552},{1974,12552},{1968,12538},{1974,12538},{1131,12552},{34777,12564},{1140,12544},{4707,12552},{1131,12538},{37692,11592},{37614,12552},{2778,12552},{1143,12552},{1983,12538},{4887,12552},{4887,12538},{37597,12565},{37697,0},{37700,0},{1146,12552},{18963,12552},{795,12538},{18970,12538},{1146,12538},{18204,12538},{17245,12552},{795,12552},{1143,12538},{4707,12538},{2778,12538},{1983,12552},{32169,12568},{37775,0},{37494,12570},{37296,12569},{36090,12571},{36718,12576},{36717,12576},{37718,0},{37721,0},{37727,0},{37724,0},{36283,12577},{37739,0},{37736,0},{36282,12577},{36096,12572},{37745,0},{36111,12580},{37742,0},{37748,0},{37754,0},{37751,0},{37326,12586},{37913,0},{37123,12588},{37763,0},{37122,12588},{37772,0},{37778,0},{37781,0},{37787,0},{37796,0},{37790,0},{37802,0},{37784,0},{37793,0},{37799,0},{37805,0},{37808,0},{37819,12124},{37811,0},{37814,0},{37826,0},{37823,0},{37818,12124},{37817,0},{37829,0},{37835,0},{37832,0},{37838,0},{37841,0},{37847,0},{37844,0},{37850,0},{37853,0},{37856,0},{37683,12619},{37862,0},{37871,0},{37868,0},{37864,11929},{37874,0},{37863,11929},{37880,0},{37883,0},{37886,0},{37889,0},{37895,0},{37892,0},{37898,0},{37901,0},{37907,0},{37904,0},{37910,0},{37916,0},{37919,0},{37922,0},{37925,0},{37928,0},{37931,0},{37596,12644},{37946,0},{37943,0},{36654,12645},{37940,0},{37949,0},{37952,0},{37957,12534},{37955,0},{37964,0},{37961,0},{37967,0},{37958,0},{37973,0},{37970,0},{37976,0},{37982,0},{37985,0},{37988,0},{37515,12668},{36097,12665},{37998,11777},{36715,12662},{37994,0},{38001,11776},{37647,12670},{38018,0},{38013,11779},{38021,0},{38027,0},{38022,11908},{38028,12099},{38037,11783},{37530,12678},{37335,12683},{38054,0},{38055,12452},{36786,12686},{38061,12453},{38079,12694},{38070,12691},{36570,12689},{38085,12461},{38088,11789},{37386,12700},{38108,0},{38115,12706},{38133,12467},{38144,0},{38155,12562},{38151,12716},{38157,11793},{38154,12625},{38162,0},{38169,12472},{38178,12725},{38184,11796},{38196,12478},{38199,12480},{38216,0},{37456,12741},{18210,12740},{38225,0},{38236,117},{38241,12748},{38235,159},{38250,12567},{38256,12751},{38260,10693},{38259,10693},{37506,12755},{37989,12754},
{37074,12756},{38273,0},{38276,0},{38286,12095},{1119,12760},{36279,12759},{36897,12756},{1107,12760},{38291,0},{36291,12765},{849,12760},{38304,12101},{1152,12760},{38309,0},{38315,0},{36315,12770},{38263,12663},{1125,12760},{38272,12758},{38327,0},{38326,12457},{36369,12781},{2736,12760},{37689,12786},{38363,0},{2781,12760},{36390,12789},{38372,0},{35799,12791},{36411,12794},{1140,12760},{38399,0},{37605,12800},{38414,0},{38405,0},{38411,0},{37948,12799},{37614,12806},{38423,0},{38426,0},{38429,0},{38432,0},{38444,0},{445,12815},{478,12813},{38436,12811},{38450,0},{38453,0},{38301,12818},{472,12819},{38462,0},{487,12821},{38468,0},{38420,0},{38046,12824},{475,12825},{38473,12682},{1116,12806},{38483,0},{38487,12457},{38486,0},{2010,12806},{38492,0},{1158,12806},{858,12806},{1113,12806},{409,12831},{38498,0},{1104,12806},{801,12806},{612,12806},{1965,12806},{1101,12806},{1218,12806},{38362,12833},{1962,12806},{38501,0},{852,12806},{38507,0},{421,12836},{38516,0},{855,12806},{1968,12806},{1974,12806},{35602,12839},{38517,11867},{38522,0},{2778,12806},{1983,12806},{1143,12806},{4887,12806},{795,12806},{38229,12841},{1131,12806},{18978,12806},{38528,0},{1146,12806},{38529,12845},{4707,12806},{38543,0},{38007,12849},{38283,12850},{37080,12851},{37324,12854},{38561,0},{38556,11909},{38567,0},{37323,12854},{37096,12859},{38571,11910},{38568,12301},{37095,12859},{38576,0},{36921,12853},{38580,11912},{36927,12861},{38585,0},{38586,12044},{37474,12863},{38594,0},{38597,0},{38604,11920},{37671,12865},{38603,0},{38609,0},{38615,0},{38621,0},{38548,12669},{38624,0},{38627,0},{38630,0},{38636,0},{38631,11927},{37179,12876},{38639,0},{38642,0},{38645,0},{38648,0},{38651,0},{38657,0},{38502,12886},{38663,0},{38668,12204},{38664,11932},{38667,12132},{38675,0},{38678,0},{38681,0},{38688,11937},{38687,0},{38693,0},{38696,0},{38699,0},{38702,0},{38705,0},{38708,0},{18979,12863},{38711,0},{38714,0},{38720,0},{38539,12907},{38723,0},{38726,0},{32082,12848},{38727,12681},{38732,0},{38735,0},{37327,12912},{38745,12362},{38753,0},{38738,0},{36922,12914},{38298,12916},{36517,12920},{37092,12919},{38469,12922},{38765,0},{38771,0},{37107,12924},{38777,0},{38778,12371},{38781,12372},{37672,12930},{38319,12929},{37155,12931},{38799,12692},{38798,0},{37554,12934},{38808,12698},{37180,12940},{38823,12707},{37188,12942},{38127,12944},{38831,0},{38852,0},{38858,0},{37212,12953},{38857,12838},{38853,12721},{38864,0},{38871,12729},{37977,12928},{37239,12958},{38880,12734},{38886,12739},{38238,12965},{38900,0},{20559,12968},{38912,0},{38538,12971},{38921,0},{38924,0},{38739,12976},{38292,12975},{38933,0},{37326,12980},{38945,0},{38948,0},{478,12978},{472,12984},{849,12983},{38957,0},{1107,12983},{445,12988},{487,12991},{38040,12980},{1152,12983},{38972,0},{38978,0},{38981,0},{1119,12983},{38977,12993},{39061,10839},{38929,12913},{475,12994},{1125,12983},{38947,12981},{38993,0},{38999,0},{409,13001},{2736,12983},{38511,13004},{421,13006},{39015,12890},{2781,12983},{36618,13009},{39037,12140},{39036,12211},{1140,12983},{39047,0},{38899,13015},{39053,0},{39059,0},{39060,10839},{39071,0},{39068,0},{1119,13024},{39077,0},{39078,13027},{39085,12677},{39084,12677},{39092,0},{39088,12585},{38967,13031},{39087,12550},{1107,13024},{39098,0},{39100,12555},{39107,0},{39099,12555},{39110,0},{39102,12589},{849,13024},{39104,0},{1152,13024},{39114,13039},{39122,0},{858,13042},{39127,12863},{39133,12872},{39140,0},{1158,13042},{39132,12872},{1125,13024},{39137,0},{1116,13042},{38091,13047},{39142,12697},{2010,13042},{39148,12712},{801,13042},{39152,0},{1113,13042},{1104,13042},{1965,13042},{39147,12617},{612,13042},{1101,13042},{2736,13024},{1218,13042},{39155,0},{1962,13042},{852,13042},{39022,13051},{39161,0},{39164,0},{39157,12473},{39156,12473},{39167,0},{2781,13024},{855,13042},{1968,13042},{39126,12806},{1140,13024},{39170,0},{39176,0},{39173,0},{4707,13042},{2778,13042},{4887,13042},{1983,13042},{1143,13042},{1146,13042},{1974,13042},{39128,0},{39048,13059},{795,13042},
{19014,13042},{1131,13042},{39191,0},{38754,13064},{38937,13065},{39200,0},{39206,0},{39201,12445},{39218,0},{39193,12918},{39212,0},{39213,12047},{39221,0},{39224,0},{39227,0},{39228,12048},{39245,0},{39248,0},{39239,0},{38316,13078},{39240,12317},{39249,12554},{39254,0},{39257,0},{39258,12054},{39263,0},{39275,0},{39281,0},{39282,12058},{39278,0},{39287,0},{39290,0},{39296,0},{39302,0},{39308,0},{39311,0},{39303,12060},{39299,0},{39314,0},{39317,0},{39320,0},{39323,0},{39326,0},{39329,0},{39021,13110},{39335,0},{39341,0},{39338,0},{39349,13055},{39345,12064},{39348,13118},{39353,0},{39359,0},{39362,0},{39365,0},{39368,0},{39266,0},{39371,0},{39375,12071},{36849,13126},{39386,0},{39383,0},{39389,0},{39392,0},{39395,0},{39398,0},{39401,0},{18235,13134},{39407,0},{39410,0},{39413,0},{39416,0},{32667,13139},{37248,13195},{39063,13193},{39425,0},{39422,0},{39426,12310},{38961,13143},{37759,13144},{37119,13148},{39440,0},{39111,13149},{39453,12316},{37131,13152},{39462,12318},{37774,13156},{39471,12260},{39476,0},{39477,12191},{31780,13209},{39208,13141},{38988,13160},{39483,12388},{39489,12938},{39492,12326},{37176,13165},{39501,12939},{38349,13168},{38139,13170},{37203,13173},{39516,12947},{39537,12332},{39545,0},{39552,12955},{37224,13186},{39557,0},{39563,0},{37428,13188},{39567,12336},{39033,13193},{39582,12338},{39590,0},{39591,12961},{39603,12964},{39609,12967},{39613,13017},{39612,13061},{19839,13207},{39470,0},{39629,0},{39635,0},{38958,13213},{39207,13212},{39642,12511},{39647,0},{39650,0},{445,13217},{39659,0},{37542,13220},{472,13221},{849,13223},{37545,13222},{1119,13223},{487,13224},{39678,12516},{1158,13227},{39686,0},{39232,13215},{39688,13089},{39689,0},{1152,13223},{478,13230},{1107,13223},{475,13233},{37557,13232},{858,13227},{39707,0},{38998,13235},{2010,13227},{1116,13227},{1125,13223},{1113,13227},{409,13237},{1965,13227},{801,13227},{1104,13227},{612,13227},{1218,13227},{37575,13239},{1101,13227},{39342,13240},{2736,13223},{1962,13227},{421,13242},{852,13227},{37581,13246},{39737,0},{855,13227},{39741,13256},{37584,13248},{39631,11941},{39630,11941},{1131,13227},{4707,13227},{1983,13227},{2778,13227},{795,13227},{1140,13223},{1968,13227},{4887,13227},{1146,13227},{1143,13227},{39760,115},{39761,0},{39683,0},{39764,0},{39767,0},{15930,13227},{1974,13227},{2781,13223},{39033,13256},{37977,13256},{39771,10687},{39682,13134},{39681,13042},{39774,13192},{39986,0},{39782,0},{39779,0},{478,13261},{39231,13262},{38812,13279},{1119,13263},{39794,0},{849,13263},{38599,13267},{39459,13265},{38598,13267},{1152,13263},{39217,13259},{472,13266},{445,13269},{38484,13271},{1107,13263},{39812,0},{38478,13264},{39806,0},{39815,0},{39827,0},{39821,0},{487,13272},{39267,13277},{39830,0},{39836,0},{38811,13279},{39842,0},{39844,13097},{39843,13097},{475,13282},{1125,13263},{39144,13284},{39851,0},{39860,0},{39863,0},{39866,0},{39869,0},{39875,0},{39872,0},{39878,0},{39881,0},{39884,0},{39887,0},{2736,13263},{38652,13290},{409,13296},{39893,0},{39902,0},{39899,0},{39556,13298},{39896,0},{39904,12727},{39908,0},{421,13303},{39903,12632},{39917,0},{39998,0},{32073,13330},{2781,13263},{1140,13263},{39921,12143},{39925,13196},{39924,13249},{39929,0},{39932,0},{39922,12068},{39935,0},{39938,0},{39941,0},{39944,0},{39947,0},{39950,0},{39953,0},{39956,0},{39959,0},{39963,157},{16537,13322},{39977,0},{39980,0},{39983,0},{39989,0},{39995,0},{39920,0},{39992,0},{40260,10733},{39999,13419},{39441,13335},{39435,13336},{40251,12681},{40012,13218},{40016,0},{40022,0},{40011,13146},{38479,13341},{40034,0},{40028,0},{40040,0},{40043,0},{40037,0},{40046,0},{40056,12456},{40052,0},{40049,0},{40061,0},{40062,12458},{40055,0},{40065,12870},{38922,13334},{39129,13349},{40076,0},{40071,13162},{39123,13348},{40079,0},{39138,13358},{40088,0},{40083,12701},{40089,12466},{40097,0},{40100,0},{40106,0},{40103,0},{39855,13366},{40113,13171},{40116,12470},{38653,13375},{38844,13376},{40131,13178},{40145,0},{40142,0},{40148,0},{39549,13382},{39729,13387},
{40155,12475},{40165,13245},{40167,13190},{40166,0},{40172,0},{40175,0},{40184,0},{40187,0},{38682,13390},{40190,0},{40193,0},{40196,0},{40199,0},{36444,13400},{40208,0},{40215,13200},{40221,12487},{40233,13206},{40238,0},{40240,13255},{40239,13324},{40245,13208},{40248,12488},{40268,0},{40271,0},{40274,0},{40280,0},{38785,13425},{39465,13427},{40284,12187},{40292,0},{40289,0},{40296,12189},{39675,13431},{39994,13422},{39124,13436},{40299,12454},{40326,12192},{38334,13441},{39130,13439},{38331,13437},{39265,13444},{40331,0},{40337,0},{39270,13446},{40346,0},{39498,13449},{40352,0},{40356,12782},{38352,13453},{39856,13455},{40371,12200},{39009,13456},{40376,0},{38364,13460},{40385,0},{40395,12205},{39340,13466},{40403,0},{40406,0},{38379,13469},{40416,13304},{38193,13474},{38683,13473},{40428,12209},{40433,0},{36645,13479},{40434,12214},{40207,13482},{40448,0},{38406,13485},{39969,13487},{40466,0},{32074,13421},{40469,0},{38415,13491},{32640,13475},{40254,13492},{39450,13494},{40017,13493},{40490,0},{40493,0},{40086,13495},{38322,13498},{40508,0},{38328,13501},{849,13503},{40515,12779},{478,13509},{38340,13506},{445,13507},{40526,0},{849,13510},{40514,0},{40480,13339},{1119,13510},{40479,13339},{40547,0},{40628,0},{487,13517},{40291,13497},{472,13518},{40559,0},{39298,13521},{38355,13520},{1152,13510},{1119,13503},{1107,13510},{40565,0},{1152,13503},{1107,13503},{475,13523},{1125,13510},{38376,13525},{1125,13503},{409,13529},{39732,13528},{40592,0},{40597,13531},{38385,13533},{38877,13534},{37444,13535},{40607,0},{38388,13536},{2781,13510},{40449,13538},{2781,13503},{1140,13510},{40598,0},{40595,0},{2736,13510},{1140,13503},{40622,0},{40465,13540},{2736,13503},{40242,13543},{18163,13542},{421,13544},{40637,0},{32548,13545},{40640,0},{40644,13495},{40643,0},{1119,13549},{478,13552},{40650,13499},{40655,0},{445,13554},{40314,13553},{40667,0},{849,13549},{487,13556},{472,13558},{40679,0},{40685,0},{40694,0},{40697,0},{1107,13549},{1152,13549},{1158,13567},{40689,13559},{40698,13364},{40707,13568},{40826,0},{858,13567},{40699,13364},{40706,0},{40709,0},{2010,13567},{40724,0},{1116,13567},{40727,0},{40730,0},{475,13573},{40718,0},{39522,13577},{1113,13567},{40736,0},{40742,0},{40739,0},{801,13567},{1965,13567},{612,13567},{1125,13549},{1104,13567},{1218,13567},{40745,0},{409,13582},{1101,13567},{40751,0},{1962,13567},{40411,13585},{40754,0},{2736,13549},{40757,0},{852,13567},{40702,13322},{421,13588},{40769,0},{2781,13549},{40776,13590},{37587,13591},{1974,13567},{40781,0},{1140,13549},{40784,0},{40777,13590},{1131,13567},{2778,13567},{40787,0},{40790,0},{1143,13567},{40791,13598},{855,13567},{1983,13567},{40799,0},{795,13567},{40802,0},{4887,13567},{40623,13601},{40811,0},{40816,13604},{18162,13567},{40817,0},{40814,0},{40825,7076},{1146,13567},{4707,13567},{1968,13567},{40821,10849},{40701,13227},{40179,13609},{40832,0},{40833,13343},{40838,0},{40844,0},{40840,13434},{40834,13343},{40853,0},{40839,13347},{40849,13274},{40848,13274},{40068,13620},{40859,0},{40854,12935},{40690,13622},{40864,13360},{40862,0},{40869,12703},{40863,13360},{40872,12704},{40353,13625},{40880,0},{40892,0},{40889,0},{40883,0},{40886,0},{40895,0},{40901,0},{1158,13632},{40711,13634},{858,13632},{40710,13634},{40905,13636},{40913,0},{40927,13643},{40923,12715},{40914,12945},{40920,12946},{40919,0},{1116,13632},{40934,0},{2010,13632},{40937,0},{40926,13572},{40938,13177},{40944,12949},{1113,13632},{801,13632},{40952,0},{40949,0},{40955,0},{40958,0},{40961,0},{612,13632},{1218,13632},{1965,13632},{1104,13632},{40965,12724},{40964,0},{40970,0},{40973,0},{40158,13656},{1101,13632},{40974,12956},{40979,0},{40988,0},{40981,13661},{40410,13663},{40982,0},{40994,0},{1962,13632},{41099,0},{41000,0},{39372,13666},{41006,0},{41009,0},{41012,0},{41015,0},{41016,12736},{41021,0},{1974,13632},{41030,0},{41033,0},{41034,12963},{41037,12744},{41042,0},{2778,13632},{41045,0},{852,13632},{41048,0},{41052,12749},{41051,0},{1143,13632},{4707,13632},{41057,0},{41058,12969},
{4887,13632},{1983,13632},{41063,0},{41066,0},{1146,13632},{41067,12972},{41075,0},{41076,13693},{795,13632},{1968,13632},{41087,0},{21528,13632},{1131,13632},{41090,0},{855,13632},{41093,0},{41096,0},{40897,13542},{40896,13567},{40997,0},{41102,0},{41108,0},{41103,13500},{41109,12688},{41117,0},{40320,13704},{41120,0},{40533,13707},{41132,0},{41126,0},{41129,0},{40341,13713},{41136,12699},{41135,0},{40671,13706},{39825,13716},{41144,0},{40344,13715},{40686,13715},{41156,0},{39693,13717},{40996,13700},{40279,13720},{39702,13719},{41163,12708},{41175,13369},{40362,13722},{41172,12710},{41181,13370},{41186,0},{41195,0},{41198,0},{41192,0},{39714,13735},{41208,13236},{40377,13737},{41214,13373},{41204,0},{41219,0},{39528,13740},{41225,0},{41231,0},{41232,13462},{41240,0},{40389,13745},{41243,0},{39540,13749},{41253,12722},{41256,13383},{41267,0},{41261,0},{41264,0},{39723,13757},{41270,0},{40159,13759},{40413,13763},{41288,0},{41285,0},{41295,12730},{41303,0},{41307,13392},{41304,13584},{41312,0},{41441,0},{39169,13772},{41321,0},{41322,12735},{41331,13401},{41328,13775},{39750,13778},{41342,0},{41337,12742},{41346,13404},{40452,13783},{39753,13784},{41355,13406},{41366,0},{41360,0},{39756,13790},{41378,0},{41381,0},{40458,13795},{41390,0},{41393,0},{41402,0},{40470,13801},{41411,0},{19104,13802},{41417,0},{41414,0},{41423,0},{41426,0},{41432,0},{32673,13812},{41444,0},{41445,13816},{41454,13615},{40305,13817},{38985,13819},{41465,0},{40672,13822},{41478,13824},{40536,13824},{41471,0},{445,13827},{40539,13829},{38994,13828},{41501,0},{41495,0},{849,13837},{445,13836},{478,13839},{39000,13840},{41529,13002},{41492,0},{41528,0},{41532,13845},{40558,13842},{40525,13821},{1119,13837},{41544,13733},{478,13851},{472,13849},{487,13850},{41562,13742},{40384,13855},{1152,13837},{41567,0},{487,13858},{40137,13861},{472,13860},{1107,13837},{39024,13863},{475,13868},{41607,13760},{41612,0},{475,13871},{1125,13837},{39030,13874},{40758,13875},{41633,0},{41640,13667},{2736,13837},{39039,13882},{41654,0},{421,13885},{2781,13837},{39042,13887},{41658,13781},{1140,13837},{421,13889},{38404,13890},{41641,13589},{37930,13884},{41676,13789},{41679,13791},{409,13894},{41685,13794},{41670,12844},{38911,13897},{41691,13018},{409,13901},{41083,13903},{41711,0},{21537,13906},{41729,0},{41735,0},{40513,13913},{41738,0},{478,13914},{41741,0},{41745,13560},{41750,0},{41757,13829},{41753,0},{445,13922},{41765,0},{41762,0},{41116,13912},{41505,13923},{41777,0},{41944,10647},{472,13928},{487,13929},{40713,13931},{41804,0},{41807,0},{41819,0},{41824,13647},{41828,0},{40572,13943},{41834,0},{41823,13580},{41843,0},{475,13948},{41849,0},{41858,0},{41861,0},{409,13954},{40762,13955},{41935,121},{41873,0},{41876,0},{421,13959},{38211,13960},{41885,0},{41888,0},{41867,0},{41897,0},{41025,13961},{40618,13969},{41900,0},{40617,13969},{41903,0},{41924,0},{41927,0},{41930,0},{41906,0},{41936,0},{41082,13979},{41942,0},{31941,13981},{41313,13982},{42113,0},{41460,13984},{41951,0},{40686,13986},{41963,0},{41955,13983},{41502,13986},{41496,13990},{41967,13516},{41975,0},{41976,13924},{41779,13994},{41778,13994},{41988,13169},{41514,13991},{41996,0},{1158,13997},{41802,13999},{42002,0},{41999,0},{41799,13998},{42006,13175},{858,13997},{1116,13997},{42015,13378},{2010,13997},{42014,0},{42020,0},{1218,13997},{42026,0},{801,13997},{612,13997},{42027,13182},{1113,13997},{42032,0},{1965,13997},{1104,13997},{1101,13997},{42039,13191},{42044,0},{41643,14017},{42054,13198},{42059,0},{42062,0},{41026,14021},{42066,13199},{40761,14023},{42072,13202},{42077,0},{42047,0},{42079,14027},{42078,13966},{1962,13997},{1131,13997},{4707,13997},{42086,0},{4887,13997},{1983,13997},{2778,13997},{39186,14032},{795,13997},{1146,13997},{1143,13997},{855,13997},{42102,158},{1968,13997},{41993,0},{42107,0},{1974,13997},{16635,13997},{852,13997},{41991,13632},{41992,13632},{42116,0},{41515,14048},{42122,0},{41956,14041},{42128,0},{41754,14043},{42134,0},{42143,0},{42137,0},{41440,14038},{41523,14052},
{40536,14043},{41800,14054},{42167,0},{42170,0},{40566,14057},{42174,14001},{41556,14060},{42179,0},{42185,0},{42188,0},{42161,0},{42194,0},{42189,13862},{40392,14066},{42203,0},{42218,0},{42209,0},{41592,14071},{42212,0},{42224,0},{42227,0},{41628,14077},{42230,0},{42046,14078},{42332,0},{42239,0},{41649,14080},{38391,14082},{41664,14084},{42251,0},{42257,0},{41673,14086},{42264,14014},{42269,0},{42272,0},{42278,0},{42275,0},{42281,0},{42290,0},{42287,0},{42293,0},{42296,0},{42299,0},{42302,0},{40195,14079},{42308,0},{42305,0},{42314,0},{17500,14105},{42311,0},{42323,0},{42326,0},{42329,0},{42155,0},{32085,14039},{41637,14112},{42347,0},{41475,14114},{42348,13514},{42353,0},{41985,14120},{42147,14119},{42341,0},{849,14121},{445,14122},{42371,0},{42374,0},{41808,14125},{41203,14127},{1119,14121},{42383,0},{42386,0},{478,14129},{1152,14121},{42396,13859},{487,14135},{42410,0},{40579,14136},{1107,14121},{472,14140},{41274,14139},{42429,13872},{475,14144},{40440,14148},{409,14149},{2736,14121},{38395,14150},{42452,0},{421,14151},{1125,14121},{2781,14121},{41361,14153},{42462,13060},{1140,14121},{42467,0},{42282,14157},{42463,13060},{42489,13899},{42502,13606},{42501,13606},{42507,13905},{42514,13980},{42318,14172},{42519,13907},{42513,14036},{42525,13908},{42533,0},{42536,0},{41964,14179},{41490,14179},{42542,0},{41749,14180},{41146,14181},{42138,14182},{42554,0},{42551,0},{42560,0},{42563,0},{42565,13826},{41127,14188},{42688,10728},{42575,0},{42578,0},{41559,14193},{42590,0},{41814,14191},{42596,0},{40578,14199},{42605,0},{42601,14073},{42602,0},{42608,0},{42617,0},{42673,14225},{42620,0},{42626,0},{42628,13963},{38394,14210},{42629,0},{42638,0},{42641,0},{41905,14214},{42647,0},{42650,0},{42656,0},{42658,14098},{42657,14164},{42644,0},{41932,14221},{41931,14221},{42668,0},{42623,0},{42677,0},{42674,0},{42683,0},{42687,10728},{41730,14230},{42698,0},{42693,14233},{42703,13993},{42710,0},{42707,0},{42702,13920},{41964,14233},{41178,14237},{41187,14238},{41796,14239},{42728,0},{1158,14243},{42715,13729},{42725,0},{42735,13374},{41815,14244},{42740,0},{42009,14241},{42741,13750},{858,14243},{42746,0},{612,14243},{801,14243},{1116,14243},{2010,14243},{42752,0},{42759,14010},{42753,13384},{1113,14243},{1218,14243},{1965,14243},{1104,14243},{42730,14105},{42731,0},{40443,14257},{42774,13403},{42779,0},{41889,14261},{42782,0},{42786,13408},{42789,13409},{42794,0},{39615,14265},{1101,14243},{1974,14243},{1131,14243},{42798,13410},{1983,14243},{2778,14243},{4707,14243},{42806,0},{1143,14243},{4887,14243},{42809,0},{42099,14270},{41916,14264},{795,14243},{852,14243},{42818,0},{855,14243},{1146,14243},{42828,14275},{1968,14243},{18405,14243},{42522,14277},{1962,14243},{42836,0},{41991,14243},{42839,0},{32190,14346},{41169,14283},{42845,0},{42840,14118},{42848,0},{41782,14284},{42334,14279},{42860,0},{42857,0},{41781,14284},{42866,0},{42863,0},{41812,14292},{445,14289},{42875,0},{41811,14292},{42870,13824},{41817,14293},{41820,14294},{41571,14296},{42887,0},{42893,0},{42899,0},{42894,13945},{42905,0},{42911,0},{42914,0},{42908,0},{40581,14305},{41850,14307},{42920,0},{42926,0},{42929,0},{42932,0},{42935,0},{42944,0},{40612,14314},{41892,14315},{42633,14316},{42953,0},{38715,14318},{41910,14319},{41913,14320},{41917,14321},{42634,14316},{42974,0},{42971,0},{39961,14322},{42977,0},{41919,14326},{42968,0},{42986,0},{42983,0},{42989,0},{42995,0},{42998,0},{43004,0},{43007,0},{43010,0},{43013,0},{43019,0},{42819,14338},{43022,0},{43025,0},{43028,0},{18406,14313},{43031,0},{43034,0},{43037,0},{43043,0},{42938,0},{42333,14348},{32353,14349},{43056,14351},{43059,14050},{42153,14353},{43052,0},{43076,0},{43068,13930},{43067,0},{41538,14359},{41541,14360},{43089,14131},{43094,0},{43100,0},{43095,13714},{478,14367},{42013,14368},{43106,0},{43049,0},{43051,14113},{487,14372},{42411,14373},{43122,14138},{41601,14376},{41611,14377},{43133,0},{472,14378},{43149,14145},{43243,14344},{43156,14081},{40611,14384},{43157,0},{409,14386},{43163,0},
{41902,14389},{43169,0},{475,14390},{421,14391},{43180,14218},{43182,14158},{43190,0},{39960,14399},{43179,14267},{43200,14161},{43195,14396},{43178,0},{43209,14165},{43215,14406},{43224,14168},{43232,0},{43244,0},{19188,14415},{43262,0},{43268,0},{43274,0},{43269,14185},{42159,14423},{42346,14427},{849,14428},{43267,14354},{43292,0},{43289,0},{42373,14429},{42555,14425},{43304,0},{1119,14428},{43265,0},{43310,0},{42195,14437},{32511,14438},{32637,14438},{43319,0},{41838,14436},{1152,14428},{43317,14198},{43322,0},{41853,14445},{43333,14011},{1107,14428},{43340,0},{43332,13949},{33180,14438},{43264,14313},{32352,14438},{43353,14019},{43347,14207},{43352,0},{43164,14453},{43370,0},{42087,14455},{43376,0},{43194,14460},{43385,0},{43388,0},{2781,14428},{43394,0},{1140,14428},{42814,14467},{43403,0},{43348,14274},{43358,0},{2736,14428},{43410,14416},{1125,14428},{43415,0},{33045,14438},{32850,14438},{42441,14472},{43062,14473},{43430,0},{43071,14474},{43425,14425},{43432,14240},{43436,0},{43439,0},{43431,14187},{42378,14480},{42567,14481},{43448,0},{42585,14482},{43457,0},{43452,14283},{43451,0},{1158,14486},{41839,14487},{43469,0},{43466,0},{858,14486},{801,14486},{43473,14249},{43484,0},{43472,0},{43481,0},{43478,0},{1116,14486},{612,14486},{2010,14486},{43493,0},{43490,0},{43496,0},{1113,14486},{1218,14486},{43502,0},{43505,0},{1965,14486},{43580,0},{43511,0},{41022,14506},{43514,0},{43517,0},{43363,14507},{1104,14486},{1974,14486},{1968,14486},{43523,0},{43529,0},{43535,0},{4707,14486},{2778,14486},{1131,14486},{4887,14486},{43544,0},{1983,14486},{1143,14486},{43553,0},{43550,0},{42813,14518},{1962,14486},{852,14486},{795,14486},{43558,14410},{43559,0},{43565,0},{1146,14486},{855,14486},{17518,14486},{1101,14486},{43568,0},{43571,0},{18423,14486},{43577,0},{43458,14243},{43583,0},{43586,0},{43590,14529},{43595,0},{43086,14534},{43087,14534},{43598,0},{42570,14533},{42937,14527},{43607,0},{43610,0},{43613,0},{42586,14538},{43619,0},{43620,13748},{43626,14133},{43623,13944},{43625,0},{43631,0},{43634,0},{43643,0},{43646,0},{33042,14545},{42204,14546},{43656,13866},{33606,14551},{43664,0},{43667,0},{43670,0},{43677,13764},{41619,14558},{43682,0},{43685,0},{35217,14563},{43694,0},{43704,14569},{42250,14567},{43703,0},{43712,0},{43721,0},{43715,0},{43362,14574},{43718,0},{42090,14575},{43536,14576},{43733,0},{43736,0},{43739,0},{43743,13798},{43742,0},{43748,0},{43751,0},{43755,13806},{43766,0},{43769,0},{43763,0},{43760,0},{43773,14469},{43776,13809},{43784,0},{43781,0},{43786,14471},{43790,0},{43787,0},{43794,13811},{43799,0},{34998,14600},{43805,0},{43698,10883},{34287,14565},{42669,14654},{40807,14646},{43806,14419},{43278,14603},{43812,14605},{43820,0},{43823,0},{849,14610},{445,14609},{42582,14612},{42390,14613},{43844,0},{43842,14615},{43296,14615},{42591,14616},{43856,0},{43853,0},{31243,14670},{42021,14619},{43860,14371},{42744,14621},{43107,14621},{1119,14610},{1152,14610},{43323,14623},{31732,14624},{43877,0},{22840,14627},{43878,14203},{42757,14625},{22495,14671},{43884,14380},{42612,14631},{41299,14632},{43898,0},{1107,14610},{43907,0},{20524,14668},{43915,14637},{43913,0},{42456,14639},{2736,14610},{43371,14640},{43931,0},{43932,14397},{43926,14395},{41926,14645},{43937,0},{2781,14610},{43372,14640},{43940,0},{43944,14401},{1140,14610},{42660,14650},{43959,14407},{1125,14610},{43965,14409},{43979,0},{42678,14660},{43990,106},{43995,14524},{43989,136},{19200,14667},{42684,14666},{44024,0},{44027,0},{44030,0},{44034,14479},{43833,14677},{44039,0},{44045,0},{42886,14682},{44048,0},{44054,0},{478,14686},{44065,14050},{1158,14689},{44072,0},{44084,0},{44078,0},{44087,0},{44067,14697},{42756,14698},{44105,0},{801,14689},{44029,14532},{44104,14254},{44099,0},{487,14700},{858,14689},{1158,14697},{44129,0},{1116,14689},{801,14697},{612,14689},{858,14697},{2010,14689},{1218,14689},{44116,14012},{472,14704},{612,14697},{41298,14706},{44123,0},{44117,0},{2010,14697},{1158,14702},{1113,14689},{1116,14697},{801,14702},{1218,14697},
{44124,7039},{1218,14702},{612,14702},{858,14702},{44068,14486},{44132,0},{43914,14711},{44138,0},{1113,14697},{855,14689},{852,14697},{1965,14689},{44141,0},{44144,0},{2010,14702},{1968,14689},{855,14697},{1131,14689},{1974,14697},{42093,14719},{44162,0},{1974,14689},{2778,14697},{1983,14689},{40806,14722},{44174,0},{4707,14689},{1131,14697},{2778,14689},{421,14725},{1983,14697},{4887,14689},{44183,0},{1104,14697},{1101,14689},{44017,14673},{855,14702},{1968,14702},{1143,14689},{4707,14697},{1974,14702},{44021,0},{1131,14702},{1101,14697},{1983,14702},{4887,14697},{2778,14702},{4707,14702},{1962,14689},{44131,14520},{4887,14702},{1143,14697},{795,14689},{852,14689},{409,14730},{1146,14689},{795,14697},{1104,14689},{44195,0},{1965,14702},{44069,0},{44198,0},{44201,0},{475,14735},{852,14702},{1968,14697},{1143,14702},{1146,14697},{1962,14702},{1101,14702},{795,14702},{1104,14702},{1962,14697},{44204,0},{1113,14702},{16659,14689},{1116,14702},{1965,14697},{44064,14050},{44108,0},{44067,14486},{43254,14736},{44092,14842},{44212,14361},{43824,14738},{44211,14361},{44223,13856},{44219,0},{44231,0},{43299,14742},{43107,14744},{43305,14743},{44240,0},{44241,14440},{44079,14744},{44243,0},{44246,0},{44250,13865},{44256,14141},{44253,14553},{44264,0},{44261,0},{44091,14759},{44273,0},{44092,14759},{44265,14202},{44270,0},{44277,14702},{44282,0},{44285,0},{44288,0},{44297,0},{1158,14759},{44300,0},{44294,0},{44107,14763},{801,14759},{44306,0},{44303,0},{44315,0},{44309,0},{44318,0},{44321,0},{44348,0},{858,14759},{44330,0},{44322,13878},{44333,0},{44325,13952},{612,14759},{44339,0},{44336,0},{1218,14763},{44342,0},{612,14763},{44345,0},{44346,267},{44351,0},{44346,204},{801,14763},{1218,14759},{2010,14759},{44354,0},{1158,14763},{44357,0},{44346,286},{44098,14861},{44361,14452},{44366,0},{42261,14789},{1116,14759},{44378,0},{44375,0},{44372,0},{44382,13896},{44381,0},{44145,14795},{858,14763},{44346,386},{852,14759},{44346,406},{44390,0},{44402,0},{44399,0},{44393,0},{44405,0},{44396,0},{44411,0},{44406,13898},{44420,0},{44414,0},{44417,0},{1974,14759},{44432,0},{44421,13900},{44429,0},{44426,0},{2778,14759},{44438,0},{44441,0},{852,14763},{1968,14759},{44346,284},{855,14763},{44450,0},{44447,0},{44442,13904},{44456,0},{44459,0},{1131,14759},{44462,0},{44453,0},{44016,14823},{44465,0},{44468,0},{44346,654},{1968,14763},{1104,14759},{1974,14763},{4707,14759},{44346,285},{4887,14759},{4707,14763},{1983,14759},{2778,14763},{44346,658},{1131,14763},{44474,0},{44477,0},{44492,0},{44483,0},{44486,0},{44346,377},{44480,0},{44489,0},{44346,656},{44346,1569},{44498,0},{1983,14763},{44507,0},{44501,0},{44504,0},{1143,14759},{4887,14763},{44513,0},{44516,0},{44519,0},{44346,372},{1113,14763},{17587,14842},{44525,0},{855,14759},{795,14759},{44529,14844},{44546,0},{44549,0},{1101,14763},{44346,368},{1962,14763},{44543,0},{44540,0},{1104,14763},{1962,14759},{44552,0},{44346,367},{44555,0},{1146,14759},{1143,14763},{1101,14759},{1965,14763},{44564,0},{44561,0},{44346,371},{44558,0},{1116,14763},{1113,14759},{1965,14759},{44576,0},{44573,0},{44570,0},{44579,0},{44346,655},{44582,0},{2010,14763},{44346,670},{44588,0},{44106,14763},{44591,0},{370,15046},{44597,0},{44600,0},{44603,0},{43293,14868},{43507,14863},{44615,0},{43306,14870},{44040,14865},{44618,0},{44621,0},{44627,0},{44631,14495},{44634,14622},{44630,0},{44640,14443},{43326,14879},{43137,14882},{44654,0},{44663,0},{44669,0},{44664,14629},{44676,14891},{45146,0},{44684,0},{44688,14633},{44679,14895},{44700,14899},{44696,0},{44127,14905},{44720,0},{41868,14904},{44732,0},{43341,14908},{44736,14913},{44735,0},{44750,0},{44756,0},{44744,0},{44768,0},{44765,0},{44762,0},{44771,0},{44777,0},{478,15043},{44693,0},{44594,0},{43398,14956},{44783,0},{42268,14931},{44789,0},{44795,0},{44798,0},{44799,14934},{43377,14936},{44816,0},{44822,0},{44819,0},{44825,0},{44828,0},{44832,14945},{43389,14950},{44847,14649},{44155,14938},{44856,14953},{41397,14951},{44864,0},{44865,14652},{44879,0},{44891,0},
{44888,0},{44894,0},{44897,0},{43404,14968},{44901,14966},{44916,14656},{44915,0},{44924,0},{472,14977},{44936,0},{44942,0},{44945,0},{44948,0},{44939,0},{44951,0},{44960,0},{44957,0},{44954,0},{44963,0},{44966,0},{475,14997},{44984,0},{45002,0},{409,14998},{45003,14661},{45006,15003},{45014,0},{45017,0},{45024,14664},{45029,0},{45032,0},{45034,14734},{45044,0},{45041,0},{45056,0},{45059,0},{45062,0},{45074,0},{45071,0},{45080,0},{45095,0},{45092,0},{45047,0},{45089,0},{45086,0},{45104,0},{45033,14855},{45116,0},{45113,0},{44259,14886},{45110,0},{45137,0},{45132,14176},{43506,15049},{44041,15051},{44220,15052},{43296,15053},{445,15054},{45167,0},{45173,0},{43110,15056},{44055,15053},{45176,0},{45177,14300},{43650,15061},{43647,15061},{43833,15052},{44643,15064},{45188,0},{45517,14282},{487,15065},{478,15066},{43492,15067},{45203,0},{45204,15070},{45507,14928},{44709,15078},{45240,14907},{42439,15081},{472,15083},{45255,14915},{45258,15087},{44772,15090},{44778,15093},{41071,15115},{45284,0},{44790,15100},{45245,0},{42468,15101},{44805,15102},{409,15104},{44154,15105},{45321,15106},{372,15109},{44844,15108},{421,15111},{45347,0},{45341,0},{44871,15116},{44880,15118},{45366,15121},{44907,15120},{45372,14657},{475,15123},{45378,14976},{45386,0},{44970,15133},{44967,15130},{45408,14993},{44985,15135},{45417,15138},{45422,0},{45431,0},{45021,15146},{45450,15149},{45454,15015},{45459,15022},{45456,15016},{45462,15155},{45081,15158},{45455,0},{45483,15033},{45105,15163},{45500,0},{45504,15039},{45509,0},{45123,15170},{45285,15073},{45288,14886},{45239,0},{45521,0},{45744,14928},{45524,0},{45527,0},{45530,0},{45533,0},{849,15178},{45545,0},{45542,0},{45537,14745},{43633,15183},{1152,15178},{45557,0},{1119,15178},{45560,0},{45563,0},{44275,15187},{45575,0},{45572,0},{45567,14760},{45569,0},{45577,14499},{43671,15193},{45584,0},{44271,15190},{45576,14446},{45587,0},{45595,14255},{45599,0},{42438,15207},{45620,0},{45596,0},{1107,15178},{2736,15178},{45626,0},{45627,14937},{2781,15178},{45635,0},{45292,15204},{1140,15178},{45614,0},{41070,15216},{44434,15217},{44433,15217},{1125,15178},{45671,0},{45678,14991},{45619,15099},{45720,15162},{45729,15040},{45735,15068},{45743,0},{45582,15073},{44007,15250},{45756,14869},{45763,14683},{44049,15254},{45770,0},{44061,15258},{45777,15257},{45781,14874},{45785,0},{45780,14746},{45786,15188},{45791,0},{44274,15265},{45792,14607},{45793,14678},{45799,15267},{45809,0},{45804,14885},{45800,0},{44670,15270},{45815,0},{45818,0},{44691,15273},{45824,0},{45827,0},{45828,15073},{45839,0},{45840,15099},{45843,14205},{45848,0},{45851,0},{45860,0},{44841,15287},{45866,0},{45875,0},{45291,15290},{45869,0},{45881,0},{45884,0},{45893,0},{45896,0},{45747,15301},{45911,0},{45912,15253},{45920,0},{45916,15255},{44359,15303},{45921,14134},{45929,0},{45926,0},{45915,15177},{45932,0},{44088,15311},{45938,0},{45942,14142},{45950,0},{45947,0},{45953,0},{45962,0},{45963,15191},{45968,0},{43686,15324},{45977,0},{42651,15329},{45992,0},{45995,0},{45996,14159},{45999,14160},{46002,14162},{46007,0},{42805,15335},{41706,15337},{46017,14166},{46016,0},{46023,14170},{44509,15342},{44508,15342},{44358,15345},{46040,0},{46046,0},{46049,0},{46041,14615},{44073,15350},{46061,0},{45180,15351},{44247,15352},{487,15355},{44109,15357},{46074,14677},{45207,15359},{46088,0},{44311,15364},{45984,15365},{46094,0},{44178,15375},{43177,15366},{45852,15367},{44151,15369},{44148,15370},{44169,15371},{46120,15215},{42990,15372},{46119,15215},{46100,0},{46124,0},{44184,15377},{46136,0},{46139,0},{46142,0},{45546,15381},{45172,15384},{849,15383},{445,15385},{46163,0},{46166,0},{1152,15383},{45931,15387},{46169,0},{478,15390},{1119,15383},{46178,0},{45814,15392},{45523,15391},{46167,15360},{46183,14901},{44310,15396},{46184,0},{46195,14508},{46199,0},{409,15401},{472,15400},{43375,15399},{2736,15383},{421,15402},{2781,15383},{46214,0},{46194,14456},{43395,15406},{46217,0},{46192,14016},{46191,14016},{1140,15383},{475,15408},{1125,15383},
{1107,15383},{45141,15411},{46238,0},{46244,0},{46241,0},{46062,15416},{45552,15417},{46245,15413},{46256,0},{46260,15317},{46265,0},{46268,0},{45969,15423},{46280,0},{46277,0},{46272,15421},{46045,15412},{46286,0},{46287,14771},{43530,15431},{46303,15210},{46302,15210},{46298,0},{46307,0},{46310,0},{46313,0},{44163,15432},{42999,15438},{46319,0},{46322,0},{43545,15436},{46327,15374},{46326,15407},{46334,0},{46331,0},{46337,0},{46340,0},{44493,15445},{46292,0},{46343,0},{46346,0},{46146,15449},{46246,15451},{46350,14375},{46358,0},{46361,0},{44593,15448},{46364,0},{43143,15455},{46370,0},{46273,15457},{46374,14382},{45978,15460},{46379,0},{46391,0},{46388,0},{45246,15464},{46397,0},{46400,0},{46406,0},{44164,15469},{46410,14402},{46421,0},{46416,14404},{43393,15471},{46424,0},{46428,15475},{46433,0},{46436,0},{46439,0},{46440,14411},{44494,15482},{46449,14413},{46454,0},{46458,14417},{45753,15487},{46466,0},{46469,0},{45288,15487},{45189,15490},{849,15493},{45939,15492},{46068,15491},{45213,15495},{1152,15493},{46488,15361},{44691,15487},{46493,0},{45225,15498},{45981,15500},{1119,15493},{45832,15503},{45375,15517},{46511,0},{1125,15493},{2736,15493},{43539,15505},{2781,15493},{45336,15508},{46523,0},{45351,15510},{46534,15474},{46533,15512},{46541,0},{1107,15493},{46443,15516},{1140,15493},{46556,0},{45432,15519},{45444,15521},{43552,15513},{45744,15487},{46568,0},{46158,15523},{445,15526},{46577,0},{46589,0},{46583,0},{46586,0},{487,15530},{46595,0},{46598,0},{45955,15529},{46599,15251},{478,15535},{46282,15536},{46610,0},{46613,0},{46615,15278},{45831,15540},{46625,0},{46616,0},{46628,0},{46522,15543},{46634,0},{46631,0},{409,15545},{421,15547},{46646,0},{46649,0},{43752,15550},{46655,0},{46618,14256},{46658,0},{46617,14256},{46661,0},{475,15555},{472,15556},{46672,14845},{46671,14845},{46676,0},{45906,15559},{46783,15595},{46682,0},{46685,0},{46686,14883},{45954,15563},{45957,15565},{46692,14630},{46257,15561},{43902,15567},{46700,0},{46704,15460},{45582,15559},{46712,0},{46709,0},{46468,15560},{46715,0},{46698,15425},{46281,15573},{46722,14636},{46718,0},{45900,15597},{46730,0},{46731,14641},{46734,15199},{46737,14647},{46743,14651},{46638,15582},{46751,0},{45876,15583},{46754,0},{46542,15586},{46763,0},{44919,15584},{45666,15588},{46768,15552},{46767,15590},{46775,0},{46776,14662},{46780,15409},{46779,15378},{46782,15595},{46790,0},{46796,0},{46572,15600},{44659,15602},{46258,15601},{45216,15605},{46811,0},{46814,0},{44785,15619},{46820,0},{45228,15607},{46824,15461},{46829,0},{46830,15276},{46185,15611},{46847,0},{46841,0},{46717,15614},{46850,0},{45252,15617},{46854,15571},{45435,15636},{46104,15620},{45309,15621},{46868,0},{45330,15623},{45342,15624},{46877,0},{45877,15626},{46883,0},{44452,15628},{46889,0},{43974,15630},{46895,0},{46901,0},{472,15632},{46905,14412},{46904,0},{46913,0},{46916,0},{46919,0},{46032,15641},{46928,0},{46931,0},{46934,0},{46179,15646},{445,15645},{46089,15647},{46946,0},{46955,0},{487,15650},{44692,15653},{45238,15654},{46512,15658},{478,15659},{46982,0},{46291,15662},{475,15663},{409,15665},{421,15666},{46527,15667},{47006,0},{46020,15669},{47011,15629},{47010,15671},{43771,15672},{47018,0},{45381,15673},{46984,14448},{47030,0},{46983,14448},{46988,0},{46230,15679},{47027,0},{46920,15680},{47045,0},{46482,15682},{849,15683},{1152,15683},{47057,0},{47063,0},{47060,0},{849,15688},{47070,15463},{46836,15686},{47067,15652},{1152,15688},{47071,15501},{46492,15685},{47075,0},{47076,384},{47084,0},{46726,15693},{47081,0},{1119,15683},{47076,283},{47090,0},{1125,15683},{47091,15467},{2736,15683},{47094,15403},{2781,15683},{47097,15336},{47005,15700},{47102,0},{47095,15403},{47076,375},{2736,15688},{47111,0},{47108,0},{43770,15706},{47117,0},{47114,0},{47098,15336},{47116,15295},{2781,15688},{47076,912},{1107,15683},{47123,0},{47076,927},{47125,15676},{47124,15709},{1140,15683},{47132,0},{46455,15711},{47076,373},{46299,15696},{47092,15467},{1125,15688},{1140,15688},{47138,0},{47076,369},
{1107,15688},{47144,0},{1119,15688},{47145,14905},{47150,0},{47153,0},{47156,0},{46497,15720},{46602,15719},{46708,15721},{47168,0},{47174,0},{47171,0},{47180,0},{47192,0},{1152,15729},{849,15729},{47197,15731},{46933,15716},{47183,0},{46725,15733},{47204,0},{47198,0},{46300,15736},{47207,0},{47216,0},{47213,0},{47219,0},{47222,0},{47225,0},{47228,0},{47103,15744},{1125,15729},{47236,15702},{47240,0},{47243,0},{47235,15749},{2736,15729},{47260,15707},{2781,15729},{47253,15223},{47262,15675},{47252,0},{47270,0},{47267,0},{47259,15758},{47279,0},{47273,0},{47282,0},{47285,0},{47288,0},{47289,14597},{47297,0},{47294,0},{47300,0},{47302,15712},{47309,0},{47306,0},{1107,15729},{47315,0},{47301,15770},{1140,15729},{47263,15713},{47318,0},{1119,15729},{47324,0},{47327,0},{47475,15826},{47052,15776},{47331,15074},{44706,15778},{47342,0},{47339,0},{47346,14909},{47181,15784},{46965,15784},{44751,15785},{47358,14919},{47363,0},{47366,0},{47378,0},{45855,15793},{47382,15694},{44829,15796},{46518,15797},{47394,14946},{47397,14958},{46323,15800},{47403,14961},{47406,15376},{47411,0},{47414,0},{47417,0},{44910,15806},{47421,14975},{47426,0},{47429,0},{47432,0},{44187,15814},{47438,0},{47441,0},{47435,0},{47448,14992},{44988,15815},{45888,15819},{44997,15818},{47453,0},{47466,15006},{44194,15823},{47471,0},{45036,15824},{47483,0},{47487,15021},{47492,0},{47484,15017},{45075,15831},{47498,0},{47504,0},{47501,0},{47503,15714},{47505,15032},{47510,0},{47511,15042},{47387,0},{849,15838},{47522,0},{47523,15077},{45588,15842},{46506,15843},{47175,15844},{1152,15838},{47535,15197},{47540,0},{45600,15848},{45603,15849},{45267,15850},{47553,15092},{46435,15861},{478,15853},{46992,15852},{47564,0},{45636,15855},{46741,15856},{45642,15857},{47570,0},{45654,15858},{46645,15859},{47579,0},{45657,15860},{47585,0},{47589,15119},{45660,15865},{1125,15838},{45672,15866},{2736,15838},{47604,15131},{46555,15870},{47619,15134},{47613,15872},{45684,15874},{45690,15875},{472,15876},{47612,0},{47631,15142},{2781,15838},{45699,15879},{44520,15881},{1107,15838},{45702,15882},{47519,0},{45711,15886},{47518,15599},{47655,15157},{1119,15838},{45708,15884},{45714,15887},{47667,15773},{47670,15164},{45723,15892},{47679,15167},{45732,15894},{47690,0},{46947,15897},{445,15898},{487,15899},{46972,15900},{47705,0},{445,15903},{47702,0},{47708,0},{487,15905},{487,15906},{45606,15907},{45609,15908},{472,15950},{478,15952},{421,15931},{421,15920},{47846,0},{47386,15911},{47732,0},{445,15913},{475,15915},{47744,0},{46740,15916},{409,15917},{46755,15919},{46545,15921},{45663,15922},{475,15923},{47756,0},{47774,0},{409,15925},{47780,0},{45681,15927},{45687,15929},{47785,15930},{47792,0},{47812,15880},{409,15932},{421,15935},{46662,15934},{47810,0},{47811,15880},{47816,0},{47819,0},{478,15940},{46797,15941},{47801,0},{475,15946},{45717,15944},{47837,0},{47831,0},{472,15947},{45726,15949},{47735,0},{45738,15951},{45513,15953},{478,16008},{475,15980},{409,15986},{47864,0},{47867,0},{47869,15656},{47541,15958},{47873,0},{45264,15961},{47184,15955},{46971,15960},{47868,15613},{47888,0},{46965,15958},{487,15964},{445,15965},{47344,15954},{47370,15962},{472,16002},{47999,0},{47914,15972},{47922,15975},{47930,0},{47931,15918},{47936,0},{47727,15969},{47939,0},{45387,15983},{47945,0},{47932,15982},{45411,15985},{47966,0},{421,15987},{47728,15969},{47972,0},{47784,15989},{47981,0},{45441,15994},{47976,15990},{47987,0},{45468,15997},{47996,0},{47965,16000},{47923,15975},{45480,16003},{44092,16006},{47685,16007},{47913,15910},{47903,0},{48027,15098},{48173,0},{47343,16013},{47185,16014},{48047,0},{48050,0},{47878,16017},{48054,15091},{48059,0},{48062,0},{48065,0},{47877,16017},{48071,0},{47371,16022},{48074,0},{48080,0},{48083,0},{48170,0},{48092,0},{48095,0},{48101,0},{48107,0},{48111,15132},{48119,0},{48118,16038},{48120,15141},{47974,16043},{48123,15933},{47973,16043},{48137,0},{47977,16044},{46560,16046},{48146,0},{421,16047},{48147,15996},{47829,16029},{48157,16051},{48150,15159},
{48160,16005},{48162,15165},{48156,15998},{48159,16005},{48166,15299},{48032,0},{445,16059},{48228,16029},{48185,0},{48188,0},{48189,15904},{48057,16065},{487,16066},{47085,16068},{48212,0},{47373,16071},{48218,0},{48079,16073},{48222,16024},{48214,15791},{48096,16078},{48102,16079},{48108,16080},{475,16081},{48246,15981},{409,16084},{48260,0},{48269,0},{48263,0},{48272,0},{46912,16090},{45706,16093},{48228,16060},{48281,0},{48287,0},{472,16096},{48284,0},{478,16098},{48299,0},{48302,0},{48311,0},{47349,16105},{48321,16064},{48326,0},{47368,16110},{48329,0},{48338,0},{48081,16114},{48339,16114},{48347,0},{48312,16060},{46900,16119},{48332,0},{48353,0},{48356,0},{48359,0},{47110,16118},{48365,0},{48362,0},{48264,16123},{47827,16128},{47034,16126},{47230,16117},{48386,0},{48389,0},{45705,16130},{47844,16131},{47673,16133},{48398,0},{48404,0},{48416,0},{48187,16138},{48419,0},{48425,0},{48429,15784},{48434,0},{47367,16149},{47229,16150},{47244,16151},{47022,16152},{48461,0},{47952,16153},{47905,16148},{47904,16148},{48470,0},{48473,0},{48476,0},{47826,16160},{48479,0},{48443,0},{48012,16161},{48488,0},{48469,16127},{48491,0},{48484,16004},{48574,16058},{48573,15967},{48492,16186},{48318,16167},{48506,0},{48207,16169},{47889,16168},{48076,16170},{48075,16170},{48046,16171},{48516,16146},{48521,0},{48524,0},{48527,0},{47953,16177},{48530,0},{48536,0},{48366,16179},{48542,0},{48367,16179},{48543,16127},{48277,16182},{48276,16182},{48004,16185},{48554,0},{48393,16186},{48003,16185},{46029,16188},{48563,0},{48569,0},{48405,16190},{48577,16137},{48581,0},{48587,0},{48585,16065},{47890,16196},{48593,0},{48596,0},{48602,0},{48348,16201},{48217,16197},{48584,0},{48599,0},{47736,16203},{47586,16204},{47256,16205},{48620,0},{47031,16207},{48619,16155},{48629,0},{48638,0},{48644,0},{48645,16132},{48656,0},{48651,16164},{48646,16165},{48660,16029},{47899,16221},{48605,0},{48578,0},{47898,16221},{48753,16103},{47416,16236},{47431,16237},{48758,0},{48675,16067},{48680,0},{48683,0},{48339,16228},{48435,16228},{48693,16232},{48349,16250},{48748,16166},{48707,0},{48091,16235},{48710,0},{48697,16231},{48713,0},{48714,16120},{48719,0},{47281,16239},{48723,16210},{48726,16183},{48333,16230},{48702,16230},{48729,16216},{48734,0},{48747,16134},{48740,0},{47674,16248},{48743,0},{48699,15970},{48761,0},{48844,16102},{48845,0},{48839,0},{48196,16257},{48420,16258},{48782,0},{48785,0},{47920,16266},{48763,16011},{48286,16283},{48231,16265},{47919,16266},{47592,16267},{48791,0},{48762,16011},{47607,16269},{48037,16255},{48127,16272},{47460,16271},{48812,0},{48036,16255},{48126,16272},{48821,0},{48824,0},{48830,0},{48735,16278},{48794,0},{48806,0},{48666,16280},{48672,16284},{48856,15050},{48865,16142},{48867,16111},{48866,0},{48870,16075},{48606,16291},{48932,0},{48793,16313},{45385,16293},{48890,0},{48887,0},{48936,16263},{12042,16298},{48893,0},{45675,16293},{48899,0},{48902,0},{45693,16301},{48917,0},{48624,16304},{45421,16301},{48911,0},{45696,16302},{48920,0},{45430,16302},{48825,16289},{48924,15883},{48876,16309},{48925,15883},{48941,0},{48861,16256},{48858,16010},{45150,16285},{48944,0},{48943,16315},{49040,0},{49043,0},{48594,16316},{48954,16109},{48777,16316},{48953,0},{48962,0},{48343,16319},{48682,16320},{48970,16310},{48971,0},{49037,0},{49031,0},{48975,16324},{48980,0},{48805,16327},{47601,16328},{48989,0},{47634,16331},{48998,0},{49006,16334},{49013,0},{47463,16336},{49004,0},{49007,0},{49019,0},{49018,16273},{49022,0},{49025,0},{49029,16028},{49032,16311},{48945,16348},{49080,16321},{49049,0},{49142,0},{48256,16368},{49107,16333},{49061,0},{49062,16356},{49065,16199},{49058,0},{48777,16356},{49073,0},{49087,16028},{49050,16351},{49066,16234},{49072,16262},{48670,16363},{12042,16364},{49100,0},{49097,0},{48990,16367},{48250,16366},{49106,0},{48268,16372},{49118,0},{49113,16338},{49122,16373},{49125,16307},{49091,0},{47664,16378},{49026,16377},{49139,0},{48669,16409},{49183,16294},{49175,0},{49169,0},{49161,16390},{49166,0},{45640,16395},
{48786,16392},{49180,15094},{49207,16401},{49181,0},{49148,0},{49187,0},{48978,16396},{49189,16398},{48249,16399},{49205,0},{49208,0},{48255,16403},{49160,0},{49157,0},{49213,16406},{48372,16405},{49223,0},{49220,0},{49155,16386},{49226,0},{49156,16386},{49193,0},{49232,0},{49145,0},{49184,0},{49283,0},{49244,0},{49245,16229},{49251,16418},{49248,16230},{49259,0},{49260,16358},{45639,16425},{49075,16420},{49264,16345},{49280,0},{49200,16427},{49286,0},{49290,16429},{49295,0},{49299,16432},{49304,0},{49307,0},{49212,16437},{49316,0},{49239,16383},{49233,16441},{45615,16423},{49253,0},{49326,16097},{49327,16097},{48882,16444},{49241,0},{49263,16361},{49143,16446},{49149,16446},{48949,16447},{49349,0},{49346,0},{49421,0},{49361,0},{49364,0},{12042,16455},{48462,16457},{49376,0},{48375,16459},{49382,0},{49224,16461},{48273,16462},{49391,0},{49398,16383},{49397,0},{49403,0},{49350,16468},{49409,0},{49358,0},{49062,16450},{49400,0},{49415,0},{49424,0},{49491,16472},{49432,16292},{49435,16450},{49430,0},{49425,16322},{49488,16356},{49236,16492},{48876,16477},{49278,16480},{49429,16451},{49360,16482},{48721,16483},{49451,0},{48634,16485},{49458,16436},{49457,0},{48640,16488},{49463,0},{49466,0},{49472,0},{49473,16443},{48408,16494},{49362,16479},{49481,0},{49497,16498},{49517,0},{49509,16502},{48741,16521},{49500,16479},{49512,16481},{48742,16521},{49514,0},{49356,16501},{49503,16450},{49523,0},{49353,16503},{49524,16509},{49526,0},{49532,0},{49535,0},{48720,16512},{49541,0},{48633,16515},{49551,16489},{49550,0},{48639,16518},{49560,16519},{49503,16441},{49569,16495},{49411,16506},{49565,0},{49520,0},{49568,0},{49574,0},{49643,0},{49437,16531},{49644,16525},{49578,16451},{49583,0},{49641,16383},{49599,16478},{49598,0},{49507,16535},{49610,0},{12042,16537},{49110,16539},{49620,16370},{49623,16464},{49626,16376},{49631,0},{49632,16461},{49637,0},{49628,0},{49622,0},{48846,16550},{49649,0},{49410,16551},{49659,16322},{49504,16556},{49730,0},{49668,16500},{49724,0},{49077,16558},{49682,0},{49683,16534},{49688,0},{12042,16563},{49528,16564},{49700,0},{49701,16376},{49704,16461},{49632,16569},{49706,0},{49670,0},{49500,16554},{49656,16575},{49687,16586},{49733,0},{49742,0},{49784,0},{49736,0},{49737,16581},{49748,0},{49752,16583},{49735,16557},{49608,16585},{49761,16538},{49764,16436},{49770,16544},{49772,0},{49776,16439},{49775,0},{49763,0},{49677,16593},{49779,16547},{49152,16597},{49671,16600},{49794,16599},{49272,16602},{49192,16603},{49844,0},{49815,16604},{49817,0},{49790,0},{49818,16456},{49826,0},{49833,16571},{49629,16609},{49841,0},{49803,16424},{49845,16555},{49851,16475},{49845,16620},{49858,16616},{49860,16500},{49848,16619},{12042,16622},{49856,0},{49865,0},{49847,0},{49851,16504},{49638,16628},{49892,0},{49896,16528},{49895,0},{49901,0},{49904,0},{49243,16641},{49813,16636},{49266,16637},{12042,16638},{49917,16481},{49922,0},{49785,16642},{49946,0},{49587,16646},{49931,0},{49863,16645},{49572,16644},{49939,16383},{49845,16652},{49869,16648},{49900,16650},{49955,0},{49959,16656},{48967,16658},{49988,0},{49906,16659},{49973,0},{49905,16659},{49444,16660},{49941,16659},{49989,16479},{49967,0},{49994,0},{50013,16635},{50003,0},{49997,0},{49942,16669},{12042,16668},{50012,0},{50016,16673},{50022,16579},{49803,16674},{50026,16665},{50036,0},{49971,16676},{50040,16677},{50025,16677},{50002,16679},{49887,16674},{49648,16681},{49591,16682},{50061,16675},{50051,0},{50058,16685},{50060,0},{50011,16688},{50069,0},{50072,0},{50055,16684},{50078,0},{50100,16686},{50082,16558},{50097,16637},{50085,16684},{50087,0},{12042,16696},{50080,16691},{49947,16699},{50079,16691},{50077,16710},{50073,16701},{49078,16703},{50117,0},{50035,16707},{12042,16706},{50115,16697},{50129,0},{50126,0},{49267,16704},{50136,16693},{50091,16719},{50053,16716},{12042,16714},{50147,0},{50153,0},{49452,16718},{50160,16713},{50166,16702},{50163,16713},{50184,16721},{49534,16727},{50140,16721},{50092,16724},{50094,16725},{12042,16726},{50171,0},{50183,0},{50161,16730},
{50193,16732},{50201,0},{50204,0},{50197,16731},{50202,16723},{50205,16661},{50125,16736},{49695,16738},{49617,16738},{50187,16711},{50189,0},{50223,16711},{50219,0},{50247,16741},{50235,16624},{50243,0},{50246,0},{50249,0},{50240,0},{12042,16750},{50231,0},{50256,16760},{50261,0},{50134,16759},{50253,16729},{12042,16757},{50265,16588},{49821,16755},{50259,16752},{49719,16756},{50283,16764},{49321,16767},{50200,16765},{50274,16763},{50291,0},{50298,16514},{50303,0},{50306,0},{12042,16762},{49111,16769},{50338,16740},{50339,0},{50312,0},{50257,16778},{50318,0},{50315,0},{50232,16773},{50327,0},{49320,16776},{12042,16777},{50310,16780},{50220,16781},{12042,16782},{50351,0},{50230,16789},{50352,16783},{49767,16787},{49383,16787},{50366,0},{49701,16787},{50175,16783},{50372,0},{50341,16792},{50314,16791},{50373,16785},{50384,0},{50388,16570},{50390,0},{50391,16589},{49458,16798},{50399,0},{50400,16723},{12042,16801},{50370,16803},{50415,16763},{50415,16666},{50420,0},{49830,16807},{50426,0},{49540,16809},{50430,16572},{50410,16812},{50458,16804},{50412,16819},{50385,16815},{50442,16784},{50448,16625},{49303,16817},{49881,16818},{49129,16820},{50441,0},{50406,16821},{50489,0},{49549,16828},{50488,16823},{50358,16824},{50433,16825},{50478,16626},{50477,0},{12042,16830},{50468,0},{50521,16839},{50439,16840},{50469,16832},{50505,16754},{50510,0},{50512,16277},{50493,16841},{50482,16843},{50526,16834},{50529,16827},{50528,0},{50534,0},{50539,16219},{50546,0},{12042,16851},{50500,16850},{50550,16833},{48304,16853},{50549,0},{16660,16857},{50547,16854},{12042,16859},{50503,16855},{50570,0},{50541,16863},{50585,0},{50545,16862},{50583,16864},{50581,5588},{50603,0},{634,16869},{50606,0},{12042,16866},{50595,16870},{12042,16872},{50575,16871},{50569,16873},{50630,0},{50629,16875},{50633,0},{50622,16880},{50639,0},{50604,16878},{50643,16882},{50651,0},{50649,388},{12042,16885},{2034,16886},{50660,0},{1165,16887},{50666,0},{50664,996},{12042,16889},{50652,16890},{1168,16893},{50678,0},{12042,16891},{8805,16892},{50687,0},{50696,0},{2989,16897},{50694,3472},{12042,16896},{50682,16899},{50697,16901},{50706,3772},{6361,16903},{50708,0},{12042,16900},{50712,16901},{50723,0},{12042,16908},{50720,0},{8803,16909},{50730,16911},{50744,0},{11317,16912},{12042,16913},{50745,16916},{50733,16917},{11350,16918},{50757,16917},{50760,16921},{50763,16845},{50238,16921},{50067,16921},{49788,16921},{49986,16921},{49962,16921},{50751,16921},{50766,16921},{50772,16922},{50775,16922},{50781,16922},{50784,16922},{50778,16922},{50787,16922},{50793,16838},{50801,0},{50793,16844},{50793,16852},{50813,0},{50793,16794},{50793,16742},{50798,0},{50793,16612},{50793,16510},{50804,0},{50810,0},{50807,0},{50793,16793},{50825,0},{50816,0},{50715,16945},{50822,0},{50817,16916},{50855,0},{50843,0},{50831,0},{50640,16942},{50844,16870},{50646,16950},{50383,16298},{50889,16941},{50383,16964},{50823,16263},{50670,16949},{50823,16715},{50823,16774},{50823,16772},{50211,16941},{50823,16365},{50823,16445},{50834,0},{48894,16940},{50840,0},{50790,16953},{50874,16841},{50918,0},{50921,0},{50922,16911},{50928,16863},{50888,0},{50882,0},{50885,0},{50906,0},{50909,0},{50912,0},{50927,0},{50915,0},{50769,16955},{50903,0},{49530,16952},{50211,16952},{49335,16952},{50769,16956},{50880,16961},{50886,16967},{50868,16954},{50856,16742},{50871,16977},{50936,0},{50973,16974},{50862,16992},{50973,16956},{50970,16901},{50994,16997},{50463,16980},{50406,16979},{50948,0},{50763,16988},{50877,16989},{50862,16983},{50997,17003},{51003,16989},{51012,17003},{50862,17002},{51036,16957},{51026,0},{51029,0},{51039,16996},{50862,17010},{51044,0},{51046,17007},{51072,17014},{51046,17025},{51042,16952},{51065,0},{50983,16995},{51087,17014},{50983,17030},{51050,0},{50902,16966},{51099,17014},{50902,17034},{51001,16993},{51108,17014},{51001,17037},{50824,17014},{51042,16984},{51042,16985},{51042,17020},{51051,17005},{51042,17019},{51066,17003},{51128,0},{50856,17023},{51080,0},{51081,16612},{51134,0},
{51096,17028},{51057,17023},{51081,16774},{51081,16772},{50379,17027},{50895,17023},{51081,16689},{51081,16746},{51030,17023},{51069,16983},{51081,16737},{51069,16984},{51069,16985},{51006,17023},{51081,16742},{51081,16662},{51081,16715},{51060,17023},{51081,16805},{51081,16596},{51107,0},{51081,16365},{51114,17026},{51122,0},{51081,16298},{51137,0},{51131,0},{51081,16654},{51093,17026},{51036,17032},{51125,0},{51141,16365},{51141,16689},{51141,16772},{51236,0},{51141,16955},{50868,17076},{51153,17018},{51141,17026},{50943,17077},{51141,16793},{51182,0},{51141,16774},{51167,0},{51164,0},{51188,0},{51158,0},{51194,0},{51197,0},{51176,0},{51206,0},{51179,0},{51191,0},{51161,0},{51185,0},{51203,0},{51173,0},{51170,0},{51200,0},{51209,0},{51212,0},{51138,16899},{51141,16715},{51144,17031},{51218,0},{51221,0},{50751,17081},{51018,17050},{51141,16654},{51141,16746},{51141,16445},{49788,17047},{49986,17047},{51149,0},{51227,0},{51033,17074},{51144,17038},{51264,17048},{51254,0},{51213,17110},{51383,0},{51263,0},{51261,17048},{51285,17096},{51275,0},{51312,17103},{51303,17106},{51294,17099},{51281,0},{51306,17100},{51282,17092},{51321,17108},{51291,17105},{51336,16986},{51341,0},{51267,16654},{51344,0},{51351,16987},{51260,0},{51354,17048},{51357,17048},{51258,132},{51267,16596},{51369,17048},{51267,16510},{51267,16612},{51267,16662},{51356,0},{51362,0},{51251,0},{51272,0},{51396,17026},{51387,17085},{51473,0},{51375,17160},{51078,17161},{51470,0},{51392,0},{51405,17109},{51416,0},{51413,0},{51431,0},{51404,0},{51410,0},{51428,0},{51422,0},{51417,17111},{51425,0},{51390,17048},{51434,0},{51440,0},{51345,17145},{51446,0},{51271,17141},{51552,17026},{51271,17185},{51402,17026},{51386,0},{51354,17128},{51458,0},{51261,17128},{51455,0},{51078,17158},{51461,0},{51464,0},{51467,0},{51477,17124},{51492,17131},{51488,0},{51500,0},{51548,0},{51497,0},{51384,17168},{51593,0},{51491,0},{51509,0},{51525,17026},{51144,17176},{51144,17174},{51513,17026},{51516,17026},{51144,17173},{51528,17026},{51510,17026},{51144,17178},{51533,0},{51144,17172},{51144,17170},{51384,17173},{51384,17172},{51384,17170},{51384,17174},{51384,17176},{51144,17175},{51522,17026},{51144,17171},{51144,17180},{51384,17175},{51384,17171},{51543,17147},{51384,17178},{51560,0},{51588,17195},{51384,17180},{51078,17168},{51581,0},{51569,0},{51575,0},{51701,0},{51240,17199},{51600,17202},{51264,17199},{51144,17202},{51611,0},{51144,17205},{51078,17199},{51618,17200},{51615,17200},{51525,17200},{51513,17200},{51516,17200},{51618,17026},{51648,17200},{51612,17200},{51615,17026},{51510,17200},{51659,0},{51648,17026},{51144,17206},{51668,0},{51665,0},{51662,0},{51671,0},{51612,17026},{51689,0},{51686,0},{51674,0},{51680,0},{51144,17204},{51144,17216},{51603,17200},{51692,0},{51600,17031},{51695,0},{51596,0},{51114,17200},{51384,17216},{51384,17205},{51603,17026},{51384,17206},{51078,17202},{51704,0},{51708,17126},{51603,17048},{51078,17200},{51384,17204},{51600,17028},{51246,17200},{51378,17236},{51367,17288},{51870,17026},{51367,17291},{51869,0},{51726,17200},{51731,0},{51860,0},{51738,17200},{51753,17246},{51744,17246},{51750,17246},{51741,17246},{51747,17246},{51759,17246},{51762,17246},{51779,0},{51768,17246},{51794,0},{51776,0},{51813,17246},{51828,17246},{51819,17246},{51836,0},{51833,0},{51842,0},{51861,16957},{51855,17121},{51854,0},{51723,17246},{51891,17134},{51582,17317},{51884,0},{51878,0},{51956,0},{51896,0},{51902,0},{51905,0},{51899,0},{51908,0},{51911,0},{51914,0},{51920,0},{51924,17268},{51915,17116},{51801,17307},{51882,17272},{51882,17275},{51882,17183},{51891,17180},{51935,0},{51932,0},{51929,0},{51501,17295},{51891,17174},{51948,17199},{51891,17168},{51445,17186},{52038,17294},{51445,17347},{51891,17140},{51882,17293},{51959,0},{51237,17321},{51595,17320},{52059,17294},{51595,17354},{52052,0},{51399,17321},{52049,0},{51636,17321},{51621,17321},{51639,17321},{51537,17321},{51627,17321},{51645,17321},{51630,17321},{51624,17321},{51633,17321},{51642,17321},
{51651,17321},{51765,17321},{51654,17321},{51756,17321},{51783,17326},{51786,17327},{51984,17263},{51975,17260},{51675,17321},{51972,17257},{51681,17321},{51795,17329},{51798,17330},{51993,17274},{51807,17321},{52001,0},{51998,0},{52004,0},{51810,17321},{52010,0},{51837,17321},{52007,0},{51843,17321},{52013,0},{51936,17339},{51942,17340},{51939,17341},{52016,0},{51963,17026},{52028,0},{51961,17233},{52197,17294},{51961,17400},{52031,0},{51696,17321},{51561,17321},{51450,17321},{51849,17321},{51705,17321},{52034,0},{52037,0},{51888,17323},{51735,17321},{51717,17321},{52073,0},{51720,17356},{52058,0},{51576,17408},{52238,0},{52106,0},{52094,0},{52088,0},{52085,0},{52091,0},{52097,0},{52100,0},{52082,0},{52079,0},{52103,0},{52118,0},{52109,0},{52112,0},{52115,0},{52133,0},{52139,0},{52155,17321},{52163,0},{52158,17321},{52151,0},{52152,17321},{52175,0},{52169,0},{52188,17392},{52191,17180},{52217,0},{52214,0},{52211,0},{52206,17282},{52205,0},{51817,17398},{52344,17294},{51817,17449},{51963,17398},{52220,0},{52223,0},{52074,17244},{52235,0},{52245,17455},{52355,0},{52338,17445},{52257,17418},{52278,17427},{52272,17425},{52266,17423},{52263,17420},{52293,17428},{52287,17430},{52299,17432},{52244,0},{52311,17390},{52305,17388},{52316,0},{52304,0},{52310,0},{51945,17414},{52328,0},{52323,17315},{52239,17351},{51711,17453},{52352,0},{52329,17444},{52356,17238},{52351,17447},{52443,17414},{52351,17482},{51966,17417},{52428,17477},{52368,17410},{52427,0},{52404,17439},{52362,17479},{52389,17378},{52383,17374},{52386,17373},{52380,17375},{52377,17376},{52395,17381},{52392,17380},{52398,17382},{52191,17467},{52066,17478},{52497,17414},{52066,17500},{52185,17470},{52179,17472},{52248,17457},{52182,17471},{52407,17440},{52419,17441},{52440,17409},{52376,0},{52044,17474},{52456,17509},{52533,17414},{52456,17512},{52508,0},{52523,0},{52460,0},{52465,17355},{52551,17414},{52465,17518},{52469,0},{52493,0},{52472,0},{52484,0},{52475,0},{52478,0},{52481,0},{52487,0},{52490,0},{52532,0},{52505,0},{52496,0},{52466,0},{52520,0},{52517,0},{52511,0},{52514,0},{52526,0},{52521,132},{52513,17484},{52617,17414},{52513,17540},{52521,230},{52543,17516},{52629,17414},{52543,17544},{52603,17535},{52638,17414},{52603,17547},{52242,17537},{52570,17526},{52650,17414},{52570,17551},{52564,17522},{52659,17414},{52564,17554},{52600,17532},{52668,17414},{52600,17557},{52582,17534},{52677,17414},{52582,17560},{52606,17514},{52686,17414},{52606,17563},{52468,17521},{52695,17414},{52468,17566},{52625,0},{690,17515},{52342,17536},{52710,17414},{52342,17571},{52576,17524},{52719,17414},{52576,17574},{52567,17523},{52728,17414},{52567,17577},{52585,17527},{52737,17414},{52585,17580},{52559,0},{52549,17533},{52749,17414},{52549,17584},{52573,17528},{52758,17414},{52573,17587},{52588,17485},{52767,17414},{52588,17590},{52525,17529},{52776,17414},{52525,17593},{52579,17525},{52785,17414},{52579,17596},{52593,17188},{52375,17520},{52797,17414},{52375,17600},{52449,17572},{52692,17545},{52649,0},{52635,17548},{52590,17582},{52707,17414},{52796,0},{52782,17591},{52805,0},{12042,17569},{52656,17578},{52704,17572},{52717,17568},{52764,17581},{52791,17575},{52734,17555},{52743,17588},{52755,17558},{52683,17564},{52656,17555},{52674,17585},{52863,17578},{52806,17568},{52830,17513},{52461,17604},{52815,17606},{52860,17619},{52823,0},{52845,17616},{52866,17606},{52835,0},{52450,17613},{52851,17552},{52854,17616},{52905,17634},{52806,17623},{52884,17624},{52890,17627},{52881,17628},{52875,17567},{52845,17627},{52818,17624},{52896,105},{52873,17530},{52893,17624},{52590,17624},{52704,17626},{52938,17603},{52944,17635},{52914,17627},{52917,17638},{52923,17609},{52914,17552},{52914,17575},{52635,17646},{52926,17638},{52747,17647},{52675,17643},{52636,17646},{52908,17567},{52934,0},{52872,17636},{52674,17643},{52953,17661},{52920,17653},{52950,17637},{52956,17612},{52962,17639},{52965,17642},{52953,17581},{52947,17548},{52756,17664},{52693,17656},{52948,17548},{52726,17657},
{52954,17581},{52657,17652},{52998,17667},{52707,17666},{52995,17610},{52998,17663},{52684,17672},{52831,17665},{53005,17555},{52792,17670},{52765,17671},{52735,17669},{53004,17555},{52875,17665},{53070,17591},{53039,0},{53040,17667},{52540,17681},{52774,17690},{52702,17689},{52879,17682},{53076,17569},{53081,0},{53079,17608},{52783,17691},{53079,17467},{53096,0},{53094,17039},{53102,0},{53094,17014},{53094,17149},{396,17699},{53094,17683},{53094,17677},{53094,17645},{53094,17675},{53094,17633},{53094,17687},{53094,17673},{53094,17659},{53094,17660},{53094,17658},{53094,17674},{53094,17676},{53094,17685},{53094,17688},{53094,17696},{53094,17697},{53094,17701},{53094,17684},{53094,17694},{53094,17695},{53094,17614},{53094,17686},{53094,17678},{53109,17629},{53123,0},{53120,0},{53114,0},{396,17703},{53110,17699},{53211,17414},{53110,17738},{396,17705},{53124,17149},{53198,0},{396,17733},{53210,0},{396,17739},{396,17735},{396,17734},{53225,0},{53227,17702},{53247,17294},{53227,17750},{51144,17742},{51570,17744},{53240,0},{53237,0},{53231,0},{53243,0},{53258,0},{53255,0},{53277,132},{53220,17758},{53285,0},{53282,0},{1,0},{53293,17729},{53293,17713},{53293,17711},{53293,17718},{53293,17716},{53293,17715},{53293,17717},{53293,17719},{53293,17712},{53293,17709},{53293,17710},{53293,17714},{53293,17720},{53293,17730},{53293,17731},{53293,17722},{53293,17721},{53293,17723},{53293,17726},{53293,17727},{53293,17728},{53293,17725},{53293,17724},{53293,17755},{53293,17763},{53293,17762},{53293,17757},{53293,17754},{53293,17756},{53293,17753},{53293,17748},{53293,17662}
