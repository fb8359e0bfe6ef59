------------------------------- MODULE CharData -------------------------------
(* Character data (Unicode 3).  Written by tools/chardata.py. *)
EXTENDS Integers
UpTab == <<
  <<97,122,-32>>, <<181,181,743>>, <<224,246,-32>>, <<248,254,-32>>, <<255,255,121>>, <<257,257,-1>>, <<259,259,-1>>, <<261,261,-1>>, <<263,263,-1>>, 
  <<265,265,-1>>, <<267,267,-1>>, <<269,269,-1>>, <<271,271,-1>>, <<273,273,-1>>, <<275,275,-1>>, <<277,277,-1>>, <<279,279,-1>>, <<281,281,-1>>, 
  <<283,283,-1>>, <<285,285,-1>>, <<287,287,-1>>, <<289,289,-1>>, <<291,291,-1>>, <<293,293,-1>>, <<295,295,-1>>, <<297,297,-1>>, <<299,299,-1>>, 
  <<301,301,-1>>, <<303,303,-1>>, <<305,305,-232>>, <<307,307,-1>>, <<309,309,-1>>, <<311,311,-1>>, <<314,314,-1>>, <<316,316,-1>>, <<318,318,-1>>, 
  <<320,320,-1>>, <<322,322,-1>>, <<324,324,-1>>, <<326,326,-1>>, <<328,328,-1>>, <<331,331,-1>>, <<333,333,-1>>, <<335,335,-1>>, <<337,337,-1>>, 
  <<339,339,-1>>, <<341,341,-1>>, <<343,343,-1>>, <<345,345,-1>>, <<347,347,-1>>, <<349,349,-1>>, <<351,351,-1>>, <<353,353,-1>>, <<355,355,-1>>, 
  <<357,357,-1>>, <<359,359,-1>>, <<361,361,-1>>, <<363,363,-1>>, <<365,365,-1>>, <<367,367,-1>>, <<369,369,-1>>, <<371,371,-1>>, <<373,373,-1>>, 
  <<375,375,-1>>, <<378,378,-1>>, <<380,380,-1>>, <<382,382,-1>>, <<383,383,-300>>, <<387,387,-1>>, <<389,389,-1>>, <<392,392,-1>>, <<396,396,-1>>, 
  <<402,402,-1>>, <<405,405,97>>, <<409,409,-1>>, <<417,417,-1>>, <<419,419,-1>>, <<421,421,-1>>, <<424,424,-1>>, <<429,429,-1>>, <<432,432,-1>>, 
  <<436,436,-1>>, <<438,438,-1>>, <<441,441,-1>>, <<445,445,-1>>, <<447,447,56>>, <<453,453,-1>>, <<454,454,-2>>, <<456,456,-1>>, <<457,457,-2>>, 
  <<459,459,-1>>, <<460,460,-2>>, <<462,462,-1>>, <<464,464,-1>>, <<466,466,-1>>, <<468,468,-1>>, <<470,470,-1>>, <<472,472,-1>>, <<474,474,-1>>, 
  <<476,476,-1>>, <<477,477,-79>>, <<479,479,-1>>, <<481,481,-1>>, <<483,483,-1>>, <<485,485,-1>>, <<487,487,-1>>, <<489,489,-1>>, <<491,491,-1>>, 
  <<493,493,-1>>, <<495,495,-1>>, <<498,498,-1>>, <<499,499,-2>>, <<501,501,-1>>, <<505,505,-1>>, <<507,507,-1>>, <<509,509,-1>>, <<511,511,-1>>, 
  <<513,513,-1>>, <<515,515,-1>>, <<517,517,-1>>, <<519,519,-1>>, <<521,521,-1>>, <<523,523,-1>>, <<525,525,-1>>, <<527,527,-1>>, <<529,529,-1>>, 
  <<531,531,-1>>, <<533,533,-1>>, <<535,535,-1>>, <<537,537,-1>>, <<539,539,-1>>, <<541,541,-1>>, <<543,543,-1>>, <<547,547,-1>>, <<549,549,-1>>, 
  <<551,551,-1>>, <<553,553,-1>>, <<555,555,-1>>, <<557,557,-1>>, <<559,559,-1>>, <<561,561,-1>>, <<563,563,-1>>, <<595,595,-210>>, <<596,596,-206>>, 
  <<598,599,-205>>, <<601,601,-202>>, <<603,603,-203>>, <<608,608,-205>>, <<611,611,-207>>, <<616,616,-209>>, <<617,617,-211>>, <<623,623,-211>>, 
  <<626,626,-213>>, <<629,629,-214>>, <<640,640,-218>>, <<643,643,-218>>, <<648,648,-218>>, <<650,651,-217>>, <<658,658,-219>>, <<837,837,84>>, 
  <<940,940,-38>>, <<941,943,-37>>, <<945,961,-32>>, <<962,962,-31>>, <<963,971,-32>>, <<972,972,-64>>, <<973,974,-63>>, <<976,976,-62>>, 
  <<977,977,-57>>, <<981,981,-47>>, <<982,982,-54>>, <<987,987,-1>>, <<989,989,-1>>, <<991,991,-1>>, <<993,993,-1>>, <<995,995,-1>>, <<997,997,-1>>, 
  <<999,999,-1>>, <<1001,1001,-1>>, <<1003,1003,-1>>, <<1005,1005,-1>>, <<1007,1007,-1>>, <<1008,1008,-86>>, <<1009,1009,-80>>, <<1010,1010,-79>>, 
  <<1072,1103,-32>>, <<1104,1119,-80>>, <<1121,1121,-1>>, <<1123,1123,-1>>, <<1125,1125,-1>>, <<1127,1127,-1>>, <<1129,1129,-1>>, <<1131,1131,-1>>, 
  <<1133,1133,-1>>, <<1135,1135,-1>>, <<1137,1137,-1>>, <<1139,1139,-1>>, <<1141,1141,-1>>, <<1143,1143,-1>>, <<1145,1145,-1>>, <<1147,1147,-1>>, 
  <<1149,1149,-1>>, <<1151,1151,-1>>, <<1153,1153,-1>>, <<1165,1165,-1>>, <<1167,1167,-1>>, <<1169,1169,-1>>, <<1171,1171,-1>>, <<1173,1173,-1>>, 
  <<1175,1175,-1>>, <<1177,1177,-1>>, <<1179,1179,-1>>, <<1181,1181,-1>>, <<1183,1183,-1>>, <<1185,1185,-1>>, <<1187,1187,-1>>, <<1189,1189,-1>>, 
  <<1191,1191,-1>>, <<1193,1193,-1>>, <<1195,1195,-1>>, <<1197,1197,-1>>, <<1199,1199,-1>>, <<1201,1201,-1>>, <<1203,1203,-1>>, <<1205,1205,-1>>, 
  <<1207,1207,-1>>, <<1209,1209,-1>>, <<1211,1211,-1>>, <<1213,1213,-1>>, <<1215,1215,-1>>, <<1218,1218,-1>>, <<1220,1220,-1>>, <<1224,1224,-1>>, 
  <<1228,1228,-1>>, <<1233,1233,-1>>, <<1235,1235,-1>>, <<1237,1237,-1>>, <<1239,1239,-1>>, <<1241,1241,-1>>, <<1243,1243,-1>>, <<1245,1245,-1>>, 
  <<1247,1247,-1>>, <<1249,1249,-1>>, <<1251,1251,-1>>, <<1253,1253,-1>>, <<1255,1255,-1>>, <<1257,1257,-1>>, <<1259,1259,-1>>, <<1261,1261,-1>>, 
  <<1263,1263,-1>>, <<1265,1265,-1>>, <<1267,1267,-1>>, <<1269,1269,-1>>, <<1273,1273,-1>>, <<1377,1414,-48>>, <<7681,7681,-1>>, <<7683,7683,-1>>, 
  <<7685,7685,-1>>, <<7687,7687,-1>>, <<7689,7689,-1>>, <<7691,7691,-1>>, <<7693,7693,-1>>, <<7695,7695,-1>>, <<7697,7697,-1>>, <<7699,7699,-1>>, 
  <<7701,7701,-1>>, <<7703,7703,-1>>, <<7705,7705,-1>>, <<7707,7707,-1>>, <<7709,7709,-1>>, <<7711,7711,-1>>, <<7713,7713,-1>>, <<7715,7715,-1>>, 
  <<7717,7717,-1>>, <<7719,7719,-1>>, <<7721,7721,-1>>, <<7723,7723,-1>>, <<7725,7725,-1>>, <<7727,7727,-1>>, <<7729,7729,-1>>, <<7731,7731,-1>>, 
  <<7733,7733,-1>>, <<7735,7735,-1>>, <<7737,7737,-1>>, <<7739,7739,-1>>, <<7741,7741,-1>>, <<7743,7743,-1>>, <<7745,7745,-1>>, <<7747,7747,-1>>, 
  <<7749,7749,-1>>, <<7751,7751,-1>>, <<7753,7753,-1>>, <<7755,7755,-1>>, <<7757,7757,-1>>, <<7759,7759,-1>>, <<7761,7761,-1>>, <<7763,7763,-1>>, 
  <<7765,7765,-1>>, <<7767,7767,-1>>, <<7769,7769,-1>>, <<7771,7771,-1>>, <<7773,7773,-1>>, <<7775,7775,-1>>, <<7777,7777,-1>>, <<7779,7779,-1>>, 
  <<7781,7781,-1>>, <<7783,7783,-1>>, <<7785,7785,-1>>, <<7787,7787,-1>>, <<7789,7789,-1>>, <<7791,7791,-1>>, <<7793,7793,-1>>, <<7795,7795,-1>>, 
  <<7797,7797,-1>>, <<7799,7799,-1>>, <<7801,7801,-1>>, <<7803,7803,-1>>, <<7805,7805,-1>>, <<7807,7807,-1>>, <<7809,7809,-1>>, <<7811,7811,-1>>, 
  <<7813,7813,-1>>, <<7815,7815,-1>>, <<7817,7817,-1>>, <<7819,7819,-1>>, <<7821,7821,-1>>, <<7823,7823,-1>>, <<7825,7825,-1>>, <<7827,7827,-1>>, 
  <<7829,7829,-1>>, <<7835,7835,-59>>, <<7841,7841,-1>>, <<7843,7843,-1>>, <<7845,7845,-1>>, <<7847,7847,-1>>, <<7849,7849,-1>>, <<7851,7851,-1>>, 
  <<7853,7853,-1>>, <<7855,7855,-1>>, <<7857,7857,-1>>, <<7859,7859,-1>>, <<7861,7861,-1>>, <<7863,7863,-1>>, <<7865,7865,-1>>, <<7867,7867,-1>>, 
  <<7869,7869,-1>>, <<7871,7871,-1>>, <<7873,7873,-1>>, <<7875,7875,-1>>, <<7877,7877,-1>>, <<7879,7879,-1>>, <<7881,7881,-1>>, <<7883,7883,-1>>, 
  <<7885,7885,-1>>, <<7887,7887,-1>>, <<7889,7889,-1>>, <<7891,7891,-1>>, <<7893,7893,-1>>, <<7895,7895,-1>>, <<7897,7897,-1>>, <<7899,7899,-1>>, 
  <<7901,7901,-1>>, <<7903,7903,-1>>, <<7905,7905,-1>>, <<7907,7907,-1>>, <<7909,7909,-1>>, <<7911,7911,-1>>, <<7913,7913,-1>>, <<7915,7915,-1>>, 
  <<7917,7917,-1>>, <<7919,7919,-1>>, <<7921,7921,-1>>, <<7923,7923,-1>>, <<7925,7925,-1>>, <<7927,7927,-1>>, <<7929,7929,-1>>, <<7936,7943,8>>, 
  <<7952,7957,8>>, <<7968,7975,8>>, <<7984,7991,8>>, <<8000,8005,8>>, <<8017,8017,8>>, <<8019,8019,8>>, <<8021,8021,8>>, <<8023,8023,8>>, 
  <<8032,8039,8>>, <<8048,8049,74>>, <<8050,8053,86>>, <<8054,8055,100>>, <<8056,8057,128>>, <<8058,8059,112>>, <<8060,8061,126>>, <<8064,8071,8>>, 
  <<8080,8087,8>>, <<8096,8103,8>>, <<8112,8113,8>>, <<8115,8115,9>>, <<8126,8126,-7205>>, <<8131,8131,9>>, <<8144,8145,8>>, <<8160,8161,8>>, 
  <<8165,8165,7>>, <<8179,8179,9>>, <<8560,8575,-16>>, <<9424,9449,-26>>, <<65345,65370,-32>>
>>
LowTab == <<
  <<65,90,32>>, <<192,214,32>>, <<216,222,32>>, <<256,256,1>>, <<258,258,1>>, <<260,260,1>>, <<262,262,1>>, <<264,264,1>>, <<266,266,1>>, 
  <<268,268,1>>, <<270,270,1>>, <<272,272,1>>, <<274,274,1>>, <<276,276,1>>, <<278,278,1>>, <<280,280,1>>, <<282,282,1>>, <<284,284,1>>, <<286,286,1>>, 
  <<288,288,1>>, <<290,290,1>>, <<292,292,1>>, <<294,294,1>>, <<296,296,1>>, <<298,298,1>>, <<300,300,1>>, <<302,302,1>>, <<304,304,-199>>, 
  <<306,306,1>>, <<308,308,1>>, <<310,310,1>>, <<313,313,1>>, <<315,315,1>>, <<317,317,1>>, <<319,319,1>>, <<321,321,1>>, <<323,323,1>>, <<325,325,1>>, 
  <<327,327,1>>, <<330,330,1>>, <<332,332,1>>, <<334,334,1>>, <<336,336,1>>, <<338,338,1>>, <<340,340,1>>, <<342,342,1>>, <<344,344,1>>, <<346,346,1>>, 
  <<348,348,1>>, <<350,350,1>>, <<352,352,1>>, <<354,354,1>>, <<356,356,1>>, <<358,358,1>>, <<360,360,1>>, <<362,362,1>>, <<364,364,1>>, <<366,366,1>>, 
  <<368,368,1>>, <<370,370,1>>, <<372,372,1>>, <<374,374,1>>, <<376,376,-121>>, <<377,377,1>>, <<379,379,1>>, <<381,381,1>>, <<385,385,210>>, 
  <<386,386,1>>, <<388,388,1>>, <<390,390,206>>, <<391,391,1>>, <<393,394,205>>, <<395,395,1>>, <<398,398,79>>, <<399,399,202>>, <<400,400,203>>, 
  <<401,401,1>>, <<403,403,205>>, <<404,404,207>>, <<406,406,211>>, <<407,407,209>>, <<408,408,1>>, <<412,412,211>>, <<413,413,213>>, <<415,415,214>>, 
  <<416,416,1>>, <<418,418,1>>, <<420,420,1>>, <<422,422,218>>, <<423,423,1>>, <<425,425,218>>, <<428,428,1>>, <<430,430,218>>, <<431,431,1>>, 
  <<433,434,217>>, <<435,435,1>>, <<437,437,1>>, <<439,439,219>>, <<440,440,1>>, <<444,444,1>>, <<452,452,2>>, <<453,453,1>>, <<455,455,2>>, 
  <<456,456,1>>, <<458,458,2>>, <<459,459,1>>, <<461,461,1>>, <<463,463,1>>, <<465,465,1>>, <<467,467,1>>, <<469,469,1>>, <<471,471,1>>, <<473,473,1>>, 
  <<475,475,1>>, <<478,478,1>>, <<480,480,1>>, <<482,482,1>>, <<484,484,1>>, <<486,486,1>>, <<488,488,1>>, <<490,490,1>>, <<492,492,1>>, <<494,494,1>>, 
  <<497,497,2>>, <<498,498,1>>, <<500,500,1>>, <<502,502,-97>>, <<503,503,-56>>, <<504,504,1>>, <<506,506,1>>, <<508,508,1>>, <<510,510,1>>, 
  <<512,512,1>>, <<514,514,1>>, <<516,516,1>>, <<518,518,1>>, <<520,520,1>>, <<522,522,1>>, <<524,524,1>>, <<526,526,1>>, <<528,528,1>>, <<530,530,1>>, 
  <<532,532,1>>, <<534,534,1>>, <<536,536,1>>, <<538,538,1>>, <<540,540,1>>, <<542,542,1>>, <<546,546,1>>, <<548,548,1>>, <<550,550,1>>, <<552,552,1>>, 
  <<554,554,1>>, <<556,556,1>>, <<558,558,1>>, <<560,560,1>>, <<562,562,1>>, <<902,902,38>>, <<904,906,37>>, <<908,908,64>>, <<910,911,63>>, 
  <<913,929,32>>, <<931,939,32>>, <<986,986,1>>, <<988,988,1>>, <<990,990,1>>, <<992,992,1>>, <<994,994,1>>, <<996,996,1>>, <<998,998,1>>, 
  <<1000,1000,1>>, <<1002,1002,1>>, <<1004,1004,1>>, <<1006,1006,1>>, <<1024,1039,80>>, <<1040,1071,32>>, <<1120,1120,1>>, <<1122,1122,1>>, 
  <<1124,1124,1>>, <<1126,1126,1>>, <<1128,1128,1>>, <<1130,1130,1>>, <<1132,1132,1>>, <<1134,1134,1>>, <<1136,1136,1>>, <<1138,1138,1>>, 
  <<1140,1140,1>>, <<1142,1142,1>>, <<1144,1144,1>>, <<1146,1146,1>>, <<1148,1148,1>>, <<1150,1150,1>>, <<1152,1152,1>>, <<1164,1164,1>>, 
  <<1166,1166,1>>, <<1168,1168,1>>, <<1170,1170,1>>, <<1172,1172,1>>, <<1174,1174,1>>, <<1176,1176,1>>, <<1178,1178,1>>, <<1180,1180,1>>, 
  <<1182,1182,1>>, <<1184,1184,1>>, <<1186,1186,1>>, <<1188,1188,1>>, <<1190,1190,1>>, <<1192,1192,1>>, <<1194,1194,1>>, <<1196,1196,1>>, 
  <<1198,1198,1>>, <<1200,1200,1>>, <<1202,1202,1>>, <<1204,1204,1>>, <<1206,1206,1>>, <<1208,1208,1>>, <<1210,1210,1>>, <<1212,1212,1>>, 
  <<1214,1214,1>>, <<1217,1217,1>>, <<1219,1219,1>>, <<1223,1223,1>>, <<1227,1227,1>>, <<1232,1232,1>>, <<1234,1234,1>>, <<1236,1236,1>>, 
  <<1238,1238,1>>, <<1240,1240,1>>, <<1242,1242,1>>, <<1244,1244,1>>, <<1246,1246,1>>, <<1248,1248,1>>, <<1250,1250,1>>, <<1252,1252,1>>, 
  <<1254,1254,1>>, <<1256,1256,1>>, <<1258,1258,1>>, <<1260,1260,1>>, <<1262,1262,1>>, <<1264,1264,1>>, <<1266,1266,1>>, <<1268,1268,1>>, 
  <<1272,1272,1>>, <<1329,1366,48>>, <<7680,7680,1>>, <<7682,7682,1>>, <<7684,7684,1>>, <<7686,7686,1>>, <<7688,7688,1>>, <<7690,7690,1>>, 
  <<7692,7692,1>>, <<7694,7694,1>>, <<7696,7696,1>>, <<7698,7698,1>>, <<7700,7700,1>>, <<7702,7702,1>>, <<7704,7704,1>>, <<7706,7706,1>>, 
  <<7708,7708,1>>, <<7710,7710,1>>, <<7712,7712,1>>, <<7714,7714,1>>, <<7716,7716,1>>, <<7718,7718,1>>, <<7720,7720,1>>, <<7722,7722,1>>, 
  <<7724,7724,1>>, <<7726,7726,1>>, <<7728,7728,1>>, <<7730,7730,1>>, <<7732,7732,1>>, <<7734,7734,1>>, <<7736,7736,1>>, <<7738,7738,1>>, 
  <<7740,7740,1>>, <<7742,7742,1>>, <<7744,7744,1>>, <<7746,7746,1>>, <<7748,7748,1>>, <<7750,7750,1>>, <<7752,7752,1>>, <<7754,7754,1>>, 
  <<7756,7756,1>>, <<7758,7758,1>>, <<7760,7760,1>>, <<7762,7762,1>>, <<7764,7764,1>>, <<7766,7766,1>>, <<7768,7768,1>>, <<7770,7770,1>>, 
  <<7772,7772,1>>, <<7774,7774,1>>, <<7776,7776,1>>, <<7778,7778,1>>, <<7780,7780,1>>, <<7782,7782,1>>, <<7784,7784,1>>, <<7786,7786,1>>, 
  <<7788,7788,1>>, <<7790,7790,1>>, <<7792,7792,1>>, <<7794,7794,1>>, <<7796,7796,1>>, <<7798,7798,1>>, <<7800,7800,1>>, <<7802,7802,1>>, 
  <<7804,7804,1>>, <<7806,7806,1>>, <<7808,7808,1>>, <<7810,7810,1>>, <<7812,7812,1>>, <<7814,7814,1>>, <<7816,7816,1>>, <<7818,7818,1>>, 
  <<7820,7820,1>>, <<7822,7822,1>>, <<7824,7824,1>>, <<7826,7826,1>>, <<7828,7828,1>>, <<7840,7840,1>>, <<7842,7842,1>>, <<7844,7844,1>>, 
  <<7846,7846,1>>, <<7848,7848,1>>, <<7850,7850,1>>, <<7852,7852,1>>, <<7854,7854,1>>, <<7856,7856,1>>, <<7858,7858,1>>, <<7860,7860,1>>, 
  <<7862,7862,1>>, <<7864,7864,1>>, <<7866,7866,1>>, <<7868,7868,1>>, <<7870,7870,1>>, <<7872,7872,1>>, <<7874,7874,1>>, <<7876,7876,1>>, 
  <<7878,7878,1>>, <<7880,7880,1>>, <<7882,7882,1>>, <<7884,7884,1>>, <<7886,7886,1>>, <<7888,7888,1>>, <<7890,7890,1>>, <<7892,7892,1>>, 
  <<7894,7894,1>>, <<7896,7896,1>>, <<7898,7898,1>>, <<7900,7900,1>>, <<7902,7902,1>>, <<7904,7904,1>>, <<7906,7906,1>>, <<7908,7908,1>>, 
  <<7910,7910,1>>, <<7912,7912,1>>, <<7914,7914,1>>, <<7916,7916,1>>, <<7918,7918,1>>, <<7920,7920,1>>, <<7922,7922,1>>, <<7924,7924,1>>, 
  <<7926,7926,1>>, <<7928,7928,1>>, <<7944,7951,-8>>, <<7960,7965,-8>>, <<7976,7983,-8>>, <<7992,7999,-8>>, <<8008,8013,-8>>, <<8025,8025,-8>>, 
  <<8027,8027,-8>>, <<8029,8029,-8>>, <<8031,8031,-8>>, <<8040,8047,-8>>, <<8072,8079,-8>>, <<8088,8095,-8>>, <<8104,8111,-8>>, <<8120,8121,-8>>, 
  <<8122,8123,-74>>, <<8124,8124,-9>>, <<8136,8139,-86>>, <<8140,8140,-9>>, <<8152,8153,-8>>, <<8154,8155,-100>>, <<8168,8169,-8>>, <<8170,8171,-112>>, 
  <<8172,8172,-7>>, <<8184,8185,-128>>, <<8186,8187,-126>>, <<8188,8188,-9>>, <<8486,8486,-7517>>, <<8490,8490,-8383>>, <<8491,8491,-8262>>, 
  <<8544,8559,16>>, <<9398,9423,26>>, <<65313,65338,32>>
>>
TitleTab == <<
  <<452,452,1>>, <<453,453,0>>, <<454,454,-1>>, <<455,455,1>>, <<456,456,0>>, <<457,457,-1>>, <<458,458,1>>, <<459,459,0>>, <<460,460,-1>>, 
  <<497,497,1>>, <<498,498,0>>, <<499,499,-1>>
>>
Letters == {
  170, 186, 223, 312, 329, 384, 397, 410, 411, 414, 426, 427, 442, 446, 496, 592, 593, 594, 597, 600, 602, 604, 605, 606, 607, 609, 610, 612, 613, 614, 
  615, 618, 619, 620, 621, 622, 624, 625, 627, 628, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 641, 642, 644, 645, 646, 647, 649, 652, 653, 654, 
  655, 656, 657, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 
  912, 944, 978, 979, 980, 983, 1011, 1216, 1415, 4256, 4257, 4258, 4259, 4260, 4261, 4262, 4263, 4264, 4265, 4266, 4267, 4268, 4269, 4270, 4271, 4272, 
  4273, 4274, 4275, 4276, 4277, 4278, 4279, 4280, 4281, 4282, 4283, 4284, 4285, 4286, 4287, 4288, 4289, 4290, 4291, 4292, 4293, 7830, 7831, 7832, 7833, 
  7834, 8016, 8018, 8020, 8022, 8114, 8116, 8118, 8119, 8130, 8132, 8134, 8135, 8146, 8147, 8150, 8151, 8162, 8163, 8164, 8166, 8167, 8178, 8180, 8182, 
  8183, 8319, 8450, 8455, 8458, 8459, 8460, 8461, 8462, 8463, 8464, 8465, 8466, 8467, 8469, 8473, 8474, 8475, 8476, 8477, 8484, 8488, 8492, 8493, 8495, 
  8496, 8497, 8499, 8500, 8505, 64256, 64257, 64258, 64259, 64260, 64261, 64262, 64275, 64276, 64277, 64278, 64279
}
DigitTab == <<
  <<48,57,-48>>, <<1632,1641,-1632>>, <<1776,1785,-1776>>, <<2406,2415,-2406>>, <<2534,2543,-2534>>, <<2662,2671,-2662>>, <<2791,2799,-2790>>, 
  <<2918,2927,-2918>>, <<3046,3055,-3046>>, <<3174,3183,-3174>>, <<3302,3311,-3302>>, <<3430,3439,-3430>>, <<3664,3673,-3664>>, <<3792,3801,-3792>>, 
  <<3872,3881,-3872>>, <<4160,4169,-4160>>, <<4969,4977,-4968>>, <<6112,6121,-6112>>, <<6160,6169,-6160>>, <<65296,65305,-65296>>
>>
=============================================================================
