// Generated by tools/csahint.py: order in which partial products are added (column, two or three addends). A hint only.
#pragma once
static const short csa_mul[][4]={{2,2,25,-1},{3,26,72,1001},{3,3,49,-1},{4,4,27,96},{4,50,73,-1},{4,1005,1006,1008},{5,5,28,51},{5,1007,1011,1012},{5,74,97,-1},{5,120,1009,1016},{6,6,29,52},{6,1013,1017,1020},{6,98,121,-1},{6,75,144,1024},{6,1019,1022,1026},{7,7,30,53},{7,76,99,168},{7,1021,1027,1032},{7,122,145,-1},{7,1025,1030,1036},{7,1023,1029,1038},{8,8,31,123},{8,54,77,100},{8,1031,1033,1037},{8,146,169,-1},{8,192,1044,1048},{8,1039,1042,1050},{8,1035,1046,1052},{9,9,101,124},{9,32,55,78},{9,147,216,1056},{9,1043,1058,1060},{9,170,193,-1},{9,1045,1049,1064},{9,1047,1051,1066},{9,1053,1062,1068},{10,10,33,125},{10,56,79,148},{10,102,171,240},{10,1057,1065,1076},{10,1063,1067,1078},{10,194,217,-1},{10,1072,1074,1082},{10,1059,1061,1084},{10,1069,1071,1086},{11,11,103,126},{11,34,57,80},{11,149,172,195},{11,264,1090,1094},{11,1075,1077,1092},{11,1079,1087,1098},{11,218,241,-1},{11,1073,1083,1102},{11,1085,1096,1104},{11,1081,1100,1106},{12,12,127,150},{12,35,58,81},{12,104,173,196},{12,219,288,1114},{12,1091,1095,1112},{12,1097,1099,1105},{12,242,265,-1},{12,1103,1110,1122},{12,1093,1116,1124},{12,1107,1118,1126},{12,1101,1120,1128},{13,13,36,151},{13,59,82,105},{13,128,243,312},{13,174,197,220},{13,1113,1115,1136},{13,1117,1119,1125},{13,1132,1134,1138},{13,266,289,-1},{13,1111,1123,1146},{13,1140,1144,1148},{13,1121,1127,1150},{13,1129,1142,1152},{14,14,152,175},{14,37,60,83},{14,106,244,267},{14,129,198,221},{14,336,1158,1162},{14,1133,1135,1139},{14,1145,1149,1164},{14,1143,1151,1168},{14,290,313,-1},{14,1147,1156,1172},{14,1137,1160,1174},{14,1141,1166,1176},{14,1153,1170,1178},{15,15,153,176},{15,38,61,268},{15,84,107,130},{15,199,222,245},{15,291,360,1184},{15,1157,1173,1188},{15,1159,1163,1182},{15,1190,1192,1194},{15,1167,1177,1196},{15,1171,1181,1198},{15,314,337,-1},{15,1161,1186,1202},{15,1165,1175,1204},{15,1169,1179,1206},{16,16,177,200},{16,39,62,85},{16,108,131,315},{16,154,223,246},{16,269,292,384},{16,1183,1189,1203},{16,1185,1210,1214},{16,1195,1205,1222},{16,1199,1207,1224},{16,1212,1216,1218},{16,1191,1193,1228},{16,338,361,-1},{16,1187,1220,1232},{16,1197,1230,1234},{16,1209,1226,1236},{17,17,40,63},{17,86,109,408},{17,132,293,316},{17,155,247,270},{17,178,201,224},{17,339,1240,1244},{17,1211,1233,1246},{17,1213,1215,1242},{17,1217,1219,1248},{17,1221,1229,1250},{17,1225,1231,1235},{17,362,385,-1},{17,1252,1256,1262},{17,1223,1254,1264},{17,1237,1258,1266},{17,1227,1260,1268},{18,18,202,225},{18,41,64,87},{18,110,133,340},{18,156,294,317},{18,363,432,1274},{18,179,248,271},{18,1243,1245,1276},{18,1247,1249,1272},{18,1253,1257,1284},{18,1259,1265,1288},{18,1263,1278,1282},{18,1251,1280,1292},{18,386,409,-1},{18,1241,1286,1296},{18,1255,1294,1298},{18,1261,1267,1300},{18,1269,1290,1302},{19,19,203,226},{19,42,65,88},{19,111,134,341},{19,157,180,318},{19,249,272,295},{19,364,387,456},{19,1273,1297,1314},{19,1279,1283,1306},{19,1277,1318,1320},{19,1289,1295,1299},{19,1308,1310,1312},{19,1281,1293,1326},{19,410,433,-1},{19,1275,1316,1330},{19,1285,1287,1332},{19,1322,1328,1334},{19,1291,1301,1336},{19,1303,1324,1338},{20,20,43,365},{20,66,89,112},{20,135,388,411},{20,158,181,342},{20,204,296,319},{20,227,250,273},{20,480,1342,1344},{20,1307,1315,1352},{20,1311,1313,1317},{20,1319,1327,1354},{20,1323,1329,1335},{20,1331,1348,1350},{20,1356,1358,1364},{20,434,457,-1},{20,1309,1346,1368},{20,1321,1333,1370},{20,1360,1366,1372},{20,1325,1337,1374},{20,1339,1362,1376},{21,21,44,67},{21,90,136,435},{21,113,159,389},{21,182,343,366},{21,205,297,320},{21,228,251,274},{21,412,504,1380},{21,1345,1347,1351},{21,1353,1369,1384},{21,1355,1392,1396},{21,1357,1359,1365},{21,1386,1388,1390},{21,1382,1394,1402},{21,1361,1367,1404},{21,1363,1375,1406},{21,458,481,-1},{21,1343,1349,1410},{21,1371,1398,1412},{21,1373,1400,1414},{21,1377,1408,1416},{22,22,252,275},{22,45,68,91},{22,114,137,160},{22,183,390,528},{22,206,229,367},{22,298,321,344},{22,413,436,459},{22,1383,1385,1387},{22,1389,1391,1411},{22,1420,1428,1430},{22,1422,1424,1426},{22,1393,1397,1440},{22,1434,1436,1438},{22,1413,1442,1444},{22,1401,1415,1446},{22,1409,1419,1448},{22,482,505,-1},{22,1381,1432,1452},{22,1395,1403,1454},{22,1399,1405,1456},{22,1407,1417,1458},{23,23,46,69},{23,92,115,138},{23,161,1462,1464},{23,184,414,437},{23,207,368,391},{23,230,322,345},{23,253,276,299},{23,460,483,552},{23,1421,1453,1468},{23,1427,1433,1472},{23,1425,1476,1480},{23,1429,1431,1470},{23,1435,1439,1478},{23,1437,1441,1484},{23,1482,1486,1488},{23,1447,1457,1490},{23,506,529,-1},{23,1423,1474,1494},{23,1455,1466,1496},{23,1443,1445,1498},{23,1449,1459,1500},{23,1461,1492,1502},{24,47,277,323},{24,70,93,116},{24,139,185,208},{24,162,438,461},{24,231,254,415},{24,346,369,392},{24,484,507,553},{24,1463,1516,1518},{24,1467,1479,1485},{24,1469,1471,1514},{24,1473,1475,1495},{24,1506,1520,1524},{24,1483,1489,1528},{24,1508,1510,1512},{24,1497,1522,1532},{24,1491,1530,1534},{24,300,530,-1},{24,1465,1477,1538},{24,1481,1526,1540},{24,1487,1499,1542},{24,1493,1501,1544},{24,1503,1536,1546},{25,71,301,324},{25,94,117,393},{25,140,163,186},{25,209,508,531},{25,232,255,485},{25,278,347,462},{25,370,416,439},{25,554,1554,1558},{25,1507,1517,1539},{25,1509,1556,1562},{25,1511,1519,1550},{25,1513,1515,1560},{25,1521,1566,1570},{25,1525,1527,1533},{25,1531,1535,1545},{25,1541,1564,1576},{25,1543,1574,1580},{25,1552,1568,1572},{25,1523,1529,1584},{25,1537,1582,1586},{25,1547,1578,1588},{26,95,118,141},{26,164,371,394},{26,187,210,279},{26,233,256,302},{26,325,463,555},{26,348,417,440},{26,486,509,532},{26,1551,1553,1563},{26,1555,1559,1604},{26,1561,1594,1602},{26,1557,1592,1610},{26,1565,1567,1573},{26,1569,1606,1608},{26,1577,1585,1612},{26,1581,1587,1618},{26,1596,1598,1600},{26,1571,1614,1622},{26,1575,1616,1624},{26,1579,1583,1626},{26,1589,1620,1628},{27,119,142,349},{27,165,188,418},{27,211,234,257},{27,280,303,326},{27,372,395,441},{27,464,487,556},{27,510,533,1636},{27,1593,1595,1603},{27,1597,1632,1638},{27,1599,1601,1605},{27,1607,1623,1644},{27,1609,1611,1648},{27,1613,1615,1617},{27,1621,1627,1656},{27,1634,1640,1642},{27,1646,1650,1660},{27,1652,1654,1662},{27,1619,1625,1664},{27,1629,1658,1666},{28,143,166,189},{28,212,235,258},{28,281,304,327},{28,350,442,465},{28,373,396,419},{28,511,534,557},{28,488,1672,1680},{28,1633,1635,1676},{28,1637,1670,1674},{28,1641,1643,1678},{28,1639,1684,1688},{28,1645,1647,1682},{28,1649,1690,1692},{28,1651,1661,1686},{28,1653,1663,1696},{28,1655,1665,1694},{28,1657,1667,1698},{28,1659,1700,1702},{29,167,190,213},{29,236,535,558},{29,259,282,305},{29,328,489,512},{29,351,443,466},{29,374,397,420},{29,1671,1677,1679},{29,1673,1675,1706},{29,1681,1712,1716},{29,1683,1685,1689},{29,1691,1693,1724},{29,1699,1701,1726},{29,1708,1710,1714},{29,1718,1722,1730},{29,1687,1720,1732},{29,1695,1697,1734},{29,1703,1728,1736},{30,191,214,237},{30,260,421,444},{30,283,306,375},{30,329,352,559},{30,398,467,490},{30,513,536,1746},{30,1707,1717,1748},{30,1709,1715,1742},{30,1711,1740,1744},{30,1713,1752,1754},{30,1719,1731,1750},{30,1721,1723,1756},{30,1725,1733,1735},{30,1758,1760,1762},{30,1727,1737,1766},{30,1729,1764,1768},{31,215,238,261},{31,284,353,560},{31,307,330,376},{31,399,422,445},{31,468,491,537},{31,514,1774,1780},{31,1741,1743,1749},{31,1745,1747,1784},{31,1751,1753,1782},{31,1759,1761,1763},{31,1772,1776,1778},{31,1755,1757,1792},{31,1786,1788,1794},{31,1767,1790,1796},{31,1765,1769,1798},{32,239,262,285},{32,308,331,354},{32,377,515,538},{32,400,492,561},{32,423,446,469},{32,1773,1779,1781},{32,1775,1802,1806},{32,1783,1785,1814},{32,1787,1789,1795},{32,1804,1808,1810},{32,1777,1812,1820},{32,1793,1816,1822},{32,1791,1797,1824},{32,1799,1818,1826},{33,263,286,309},{33,332,355,378},{33,424,516,562},{33,401,539,1834},{33,447,470,493},{33,1803,1809,1811},{33,1805,1832,1838},{33,1807,1830,1840},{33,1813,1821,1836},{33,1815,1842,1844},{33,1817,1823,1846},{33,1819,1825,1848},{33,1827,1850,1852},{34,287,310,448},{34,333,425,471},{34,356,540,563},{34,379,402,494},{34,517,1858,1860},{34,1831,1839,1856},{34,1833,1835,1862},{34,1837,1841,1843},{34,1849,1851,1870},{34,1864,1866,1868},{34,1845,1847,1874},{34,1853,1872,1876},{35,311,334,357},{35,380,472,495},{35,403,518,541},{35,426,449,564},{35,1857,1859,1861},{35,1865,1867,1888},{35,1871,1877,1890},{35,1880,1882,1886},{35,1863,1884,1894},{35,1869,1875,1896},{35,1873,1892,1898},{36,335,358,381},{36,404,473,496},{36,427,450,519},{36,542,565,1904},{36,1881,1883,1902},{36,1885,1887,1906},{36,1889,1895,1897},{36,1908,1910,1912},{36,1891,1899,1916},{36,1893,1914,1918},{37,359,382,405},{37,428,451,566},{37,474,497,520},{37,543,1922,1924},{37,1903,1905,1926},{37,1907,1928,1930},{37,1909,1911,1913},{37,1917,1932,1934},{37,1915,1919,1936},{38,383,406,429},{38,452,475,567},{38,498,521,544},{38,1923,1925,1927},{38,1933,1935,1946},{38,1940,1942,1944},{38,1929,1931,1950},{38,1937,1948,1952},{39,407,430,453},{39,476,499,545},{39,522,568,1956},{39,1941,1943,1958},{39,1945,1951,1960},{39,1947,1953,1962},{39,1949,1964,1966},{40,431,454,477},{40,523,546,569},{40,500,1970,1972},{40,1957,1959,1961},{40,1963,1965,1974},{40,1967,1976,1978},{41,455,478,501},{41,524,547,570},{41,1971,1973,1982},{41,1975,1984,1986},{41,1977,1979,1988},{42,479,502,525},{42,548,571,1983},{42,1985,1987,1992},{42,1989,1994,1996},{43,503,526,549},{43,572,1993,2000},{43,1995,1997,2002},{44,527,550,573},{44,2001,2003,2006},{45,551,574,2007}};
static const short csa_sq[][4]={{6,75,120,-1},{7,98,144,-1},{7,121,1001,1002},{8,99,145,1003},{8,100,168,-1},{8,122,1006,1008},{9,123,146,1009},{9,169,192,-1},{9,1007,1012,1014},{10,170,193,1015},{10,125,216,-1},{10,124,147,1020},{10,1013,1018,1022},{11,171,1021,-1},{11,217,240,-1},{11,148,194,1028},{11,1026,1030,-1},{11,1019,1023,1032},{12,150,264,-1},{12,241,1029,1036},{12,149,195,1038},{12,172,218,1040},{12,1027,1033,-1},{12,1031,1042,1044},{13,265,288,1045},{13,173,242,1048},{13,196,219,1050},{13,1037,1039,1052},{13,1041,1043,1054},{14,175,312,-1},{14,289,1049,1058},{14,174,243,1060},{14,197,220,1062},{14,266,1051,1064},{14,1053,1055,1066},{15,313,336,-1},{15,198,290,1070},{15,221,244,1072},{15,267,1059,1074},{15,1061,1063,1076},{15,1065,1067,1078},{16,200,360,-1},{16,337,1071,1082},{16,199,291,1084},{16,222,245,1086},{16,268,314,1088},{16,1073,1075,1090},{16,1077,1079,1092},{17,1085,1087,1091},{17,361,384,-1},{17,292,338,1098},{17,269,315,1100},{17,223,246,1102},{17,1083,1089,1104},{17,1093,1096,1106},{18,1103,1105,-1},{18,225,408,-1},{18,385,1099,1112},{18,224,339,1114},{18,247,270,1116},{18,293,316,1118},{18,362,1101,1120},{18,1110,1122,-1},{18,1097,1107,1124},{19,409,432,-1},{19,317,386,1128},{19,294,340,1130},{19,248,363,1132},{19,271,1113,1134},{19,1115,1119,1136},{19,1117,1121,1138},{19,1111,1125,-1},{19,1123,1140,1142},{20,250,456,1143},{20,433,1129,1146},{20,318,387,1148},{20,295,341,1150},{20,249,364,1152},{20,272,410,1154},{20,1131,1135,1156},{20,1133,1137,1158},{20,1139,1141,1160},{21,457,480,-1},{21,365,434,1164},{21,342,388,1166},{21,319,411,1168},{21,273,296,1170},{21,1147,1155,1172},{21,1149,1153,1174},{21,1151,1157,1176},{21,1159,1161,1178},{22,275,504,-1},{22,481,1165,1182},{22,274,435,1184},{22,366,389,1186},{22,297,343,1188},{22,320,412,1190},{22,458,1167,1192},{22,1169,1171,1194},{22,1173,1175,1196},{22,1177,1179,1198},{23,505,528,-1},{23,390,482,1202},{23,298,413,1204},{23,367,436,1206},{23,321,459,1208},{23,344,1183,1210},{23,1185,1191,1212},{23,1187,1189,1214},{23,1193,1195,1216},{23,1197,1199,1218},{24,300,552,-1},{24,529,1203,1222},{24,391,483,1224},{24,299,414,1226},{24,368,437,1228},{24,322,460,1230},{24,345,506,1232},{24,1205,1211,1234},{24,1207,1209,1236},{24,1213,1215,1238},{24,1217,1219,1240},{25,438,530,553},{25,415,461,1244},{25,392,484,1246},{25,369,507,1248},{25,323,1223,1250},{25,346,1233,1252},{25,1225,1231,1254},{25,1227,1229,1256},{25,1235,1237,1258},{25,1239,1241,1260},{26,325,439,531},{26,324,416,1264},{26,347,485,1266},{26,370,462,1268},{26,393,508,1270},{26,554,1245,1272},{26,1247,1249,1274},{26,1251,1253,1276},{26,1255,1257,1278},{26,1259,1261,1280},{27,348,440,463},{27,371,509,1284},{27,394,486,1286},{27,417,532,1288},{27,555,1265,1290},{27,1267,1269,1292},{27,1271,1273,1294},{27,1275,1277,1296},{27,1279,1281,1298},{28,350,349,533},{28,372,395,1302},{28,418,487,1304},{28,441,464,1306},{28,510,556,1308},{28,1285,1287,1310},{28,1289,1291,1312},{28,1293,1295,1314},{28,1297,1299,1316},{29,373,465,488},{29,442,511,1320},{29,396,534,1322},{29,419,557,1324},{29,1303,1309,1326},{29,1305,1307,1328},{29,1311,1313,1330},{29,1315,1317,1332},{30,375,374,535},{30,466,489,1336},{30,397,443,1338},{30,420,512,1340},{30,558,1321,1342},{30,1323,1325,1344},{30,1327,1329,1346},{30,1331,1333,1348},{31,398,490,513},{31,421,467,1352},{31,444,536,1354},{31,559,1337,1356},{31,1339,1341,1358},{31,1343,1345,1360},{31,1347,1349,1362},{32,400,399,537},{32,422,445,1366},{32,468,491,1368},{32,514,560,1370},{32,1353,1355,1372},{32,1357,1359,1374},{32,1361,1363,1376},{33,469,492,515},{33,423,538,1380},{33,446,561,1382},{33,1367,1371,1384},{33,1369,1373,1386},{33,1375,1377,1388},{34,425,424,539},{34,447,470,1392},{34,493,516,1394},{34,562,1381,1396},{34,1383,1385,1398},{34,1387,1389,1400},{35,448,471,494},{35,517,540,1404},{35,563,1393,1406},{35,1395,1397,1408},{35,1399,1401,1410},{36,450,449,541},{36,472,495,1414},{36,518,564,1416},{36,1405,1407,1418},{36,1409,1411,1420},{37,473,496,519},{37,542,565,1424},{37,1415,1417,1426},{37,1419,1421,1428},{38,475,474,543},{38,497,520,1432},{38,566,1425,1434},{38,1427,1429,1436},{39,498,521,544},{39,567,1433,1440},{39,1435,1437,1442},{40,500,499,545},{40,522,568,1446},{40,1441,1443,1448},{41,523,546,569},{41,1447,1449,1452},{42,525,524,547},{42,570,1453,1456},{43,548,571,1457},{44,550,549,572}};
