-------------------------------- MODULE Tables --------------------------------
(* Numbers: cosines, a logarithmic scale, and the published classifiers.                              *)
EXTENDS Integers, Sequences

(* 2^20 cos(2 pi j / 4096), j = 0 .. 1024 *)
Quarter == << 1048576, 1048575, 1048571, 1048565, 1048556, 1048545, 1048532, 1048516, 1048497, 1048476, 1048453, 1048427, 1048398, 1048368,
  1048334, 1048298, 1048260, 1048219, 1048176, 1048131, 1048083, 1048032, 1047979, 1047923, 1047865, 1047805, 1047742, 1047677,
  1047609, 1047539, 1047466, 1047391, 1047313, 1047233, 1047150, 1047065, 1046978, 1046888, 1046795, 1046700, 1046603, 1046503,
  1046401, 1046296, 1046188, 1046079, 1045967, 1045852, 1045735, 1045615, 1045493, 1045369, 1045242, 1045112, 1044981, 1044846,
  1044709, 1044570, 1044429, 1044284, 1044138, 1043989, 1043837, 1043683, 1043527, 1043368, 1043207, 1043043, 1042877, 1042708,
  1042537, 1042363, 1042187, 1042008, 1041828, 1041644, 1041458, 1041270, 1041079, 1040886, 1040690, 1040492, 1040292, 1040089,
  1039883, 1039675, 1039465, 1039252, 1039037, 1038819, 1038599, 1038376, 1038151, 1037924, 1037694, 1037462, 1037227, 1036990,
  1036750, 1036508, 1036263, 1036016, 1035767, 1035515, 1035261, 1035004, 1034745, 1034483, 1034219, 1033953, 1033684, 1033412,
  1033138, 1032862, 1032584, 1032303, 1032019, 1031733, 1031445, 1031154, 1030861, 1030565, 1030267, 1029967, 1029664, 1029358,
  1029051, 1028740, 1028428, 1028113, 1027795, 1027476, 1027153, 1026829, 1026502, 1026172, 1025840, 1025506, 1025169, 1024830,
  1024488, 1024144, 1023798, 1023449, 1023098, 1022744, 1022388, 1022030, 1021669, 1021306, 1020940, 1020572, 1020201, 1019829,
  1019453, 1019076, 1018696, 1018313, 1017928, 1017541, 1017151, 1016759, 1016365, 1015968, 1015569, 1015167, 1014763, 1014357,
  1013948, 1013537, 1013124, 1012708, 1012289, 1011869, 1011446, 1011020, 1010592, 1010162, 1009730, 1009295, 1008857, 1008418,
  1007976, 1007531, 1007084, 1006635, 1006184, 1005730, 1005273, 1004815, 1004354, 1003890, 1003425, 1002957, 1002486, 1002013,
  1001538, 1001061, 1000581, 1000098, 999614, 999127, 998638, 998146, 997652, 997156, 996657, 996156, 995652, 995147,
  994639, 994128, 993616, 993100, 992583, 992063, 991541, 991017, 990490, 989961, 989429, 988896, 988360, 987821,
  987281, 986737, 986192, 985644, 985094, 984542, 983987, 983430, 982871, 982310, 981746, 981180, 980611, 980040,
  979467, 978892, 978314, 977734, 977151, 976567, 975980, 975391, 974799, 974205, 973609, 973011, 972410, 971807,
  971202, 970594, 969984, 969372, 968758, 968141, 967522, 966901, 966278, 965652, 965024, 964393, 963761, 963126,
  962489, 961849, 961208, 960564, 959918, 959269, 958618, 957965, 957310, 956653, 955993, 955331, 954667, 954000,
  953332, 952661, 951988, 951312, 950634, 949955, 949272, 948588, 947901, 947213, 946522, 945828, 945133, 944435,
  943735, 943033, 942328, 941622, 940913, 940202, 939489, 938773, 938056, 937336, 936614, 935889, 935163, 934434,
  933703, 932970, 932235, 931497, 930758, 930016, 929272, 928525, 927777, 927026, 926274, 925519, 924761, 924002,
  923241, 922477, 921711, 920943, 920173, 919401, 918626, 917849, 917071, 916290, 915506, 914721, 913934, 913144,
  912352, 911558, 910762, 909964, 909164, 908361, 907557, 906750, 905941, 905130, 904317, 903502, 902684, 901865,
  901043, 900220, 899394, 898566, 897736, 896903, 896069, 895233, 894394, 893553, 892711, 891866, 891019, 890170,
  889319, 888465, 887610, 886753, 885893, 885032, 884168, 883302, 882434, 881564, 880692, 879818, 878942, 878064,
  877184, 876302, 875417, 874531, 873642, 872752, 871859, 870964, 870068, 869169, 868268, 867365, 866460, 865554,
  864645, 863734, 862821, 861905, 860988, 860069, 859148, 858225, 857300, 856373, 855443, 854512, 853579, 852644,
  851706, 850767, 849826, 848883, 847937, 846990, 846041, 845090, 844137, 843181, 842224, 841265, 840304, 839341,
  838376, 837409, 836439, 835468, 834495, 833521, 832544, 831565, 830584, 829601, 828616, 827630, 826641, 825651,
  824658, 823664, 822667, 821669, 820669, 819666, 818662, 817656, 816648, 815638, 814627, 813613, 812597, 811580,
  810560, 809539, 808516, 807490, 806463, 805434, 804403, 803371, 802336, 801299, 800261, 799221, 798179, 797134,
  796089, 795041, 793991, 792939, 791886, 790831, 789774, 788715, 787654, 786591, 785526, 784460, 783392, 782322,
  781250, 780176, 779100, 778023, 776944, 775862, 774780, 773695, 772608, 771520, 770430, 769338, 768244, 767148,
  766051, 764951, 763850, 762747, 761643, 760536, 759428, 758318, 757206, 756093, 754977, 753860, 752741, 751621,
  750498, 749374, 748248, 747120, 745991, 744859, 743726, 742592, 741455, 740317, 739177, 738035, 736892, 735747,
  734600, 733451, 732301, 731148, 729995, 728839, 727682, 726523, 725362, 724200, 723036, 721870, 720702, 719533,
  718362, 717190, 716015, 714840, 713662, 712483, 711302, 710119, 708935, 707749, 706561, 705372, 704181, 702988,
  701794, 700598, 699400, 698201, 697000, 695797, 694593, 693387, 692180, 690971, 689760, 688548, 687334, 686119,
  684901, 683683, 682462, 681240, 680017, 678791, 677565, 676336, 675106, 673875, 672642, 671407, 670171, 668933,
  667693, 666452, 665210, 663965, 662720, 661472, 660224, 658973, 657721, 656468, 655213, 653956, 652698, 651438,
  650177, 648914, 647650, 646384, 645117, 643848, 642578, 641306, 640033, 638758, 637482, 636204, 634924, 633643,
  632361, 631077, 629792, 628505, 627217, 625927, 624636, 623343, 622049, 620754, 619456, 618158, 616858, 615556,
  614254, 612949, 611643, 610336, 609028, 607717, 606406, 605093, 603779, 602463, 601146, 599827, 598507, 597186,
  595863, 594538, 593213, 591886, 590557, 589227, 587896, 586564, 585230, 583894, 582558, 581220, 579880, 578539,
  577197, 575853, 574509, 573162, 571815, 570466, 569115, 567764, 566411, 565057, 563701, 562344, 560986, 559626,
  558265, 556903, 555539, 554175, 552808, 551441, 550072, 548702, 547331, 545958, 544584, 543209, 541833, 540455,
  539076, 537696, 536314, 534931, 533547, 532162, 530775, 529387, 527998, 526608, 525216, 523824, 522430, 521034,
  519638, 518240, 516841, 515441, 514040, 512637, 511233, 509828, 508422, 507015, 505606, 504197, 502786, 501374,
  499960, 498546, 497130, 495713, 494295, 492876, 491456, 490034, 488612, 487188, 485763, 484337, 482910, 481482,
  480052, 478621, 477190, 475757, 474323, 472888, 471452, 470014, 468576, 467136, 465696, 464254, 462811, 461367,
  459922, 458476, 457029, 455581, 454132, 452681, 451230, 449778, 448324, 446869, 445414, 443957, 442499, 441041,
  439581, 438120, 436658, 435195, 433731, 432266, 430800, 429333, 427865, 426396, 424926, 423455, 421983, 420510,
  419036, 417561, 416085, 414609, 413131, 411652, 410172, 408691, 407209, 405727, 404243, 402758, 401273, 399786,
  398299, 396810, 395321, 393831, 392339, 390847, 389354, 387860, 386365, 384870, 383373, 381875, 380377, 378878,
  377377, 375876, 374374, 372871, 371367, 369863, 368357, 366851, 365343, 363835, 362326, 360816, 359306, 357794,
  356282, 354769, 353255, 351740, 350224, 348707, 347190, 345672, 344153, 342633, 341113, 339591, 338069, 336546,
  335022, 333498, 331972, 330446, 328919, 327391, 325863, 324334, 322804, 321273, 319741, 318209, 316676, 315142,
  313608, 312073, 310537, 309000, 307463, 305924, 304386, 302846, 301306, 299765, 298223, 296680, 295137, 293594,
  292049, 290504, 288958, 287411, 285864, 284316, 282768, 281218, 279669, 278118, 276567, 275015, 273462, 271909,
  270356, 268801, 267246, 265690, 264134, 262577, 261020, 259461, 257903, 256343, 254783, 253223, 251661, 250100,
  248537, 246974, 245411, 243847, 242282, 240717, 239151, 237585, 236018, 234450, 232882, 231313, 229744, 228175,
  226604, 225034, 223462, 221891, 220318, 218745, 217172, 215598, 214024, 212449, 210873, 209298, 207721, 206144,
  204567, 202989, 201411, 199832, 198253, 196673, 195093, 193512, 191931, 190350, 188768, 187185, 185602, 184019,
  182435, 180851, 179267, 177682, 176096, 174510, 172924, 171337, 169750, 168163, 166575, 164987, 163398, 161809,
  160219, 158630, 157039, 155449, 153858, 152267, 150675, 149083, 147491, 145898, 144305, 142712, 141118, 139524,
  137930, 136335, 134740, 133145, 131549, 129953, 128357, 126760, 125163, 123566, 121969, 120371, 118773, 117175,
  115576, 113978, 112378, 110779, 109179, 107580, 105979, 104379, 102778, 101178, 99576, 97975, 96374, 94772,
  93170, 91567, 89965, 88362, 86759, 85156, 83553, 81950, 80346, 78742, 77138, 75534, 73929, 72325,
  70720, 69115, 67510, 65905, 64299, 62694, 61088, 59482, 57876, 56270, 54664, 53058, 51451, 49845,
  48238, 46631, 45024, 43417, 41810, 40203, 38595, 36988, 35380, 33773, 32165, 30557, 28949, 27341,
  25733, 24125, 22517, 20909, 19301, 17693, 16084, 14476, 12868, 11259, 9651, 8042, 6434, 4825,
  3217, 1608, 0 >>
(* 2^20 * 2^(j/96), j = 0 .. 96 *)
Scale96 == << 1048576, 1056174, 1063828, 1071537, 1079302, 1087123, 1095000, 1102935, 1110928, 1118978, 1127086, 1135254,
  1143480, 1151766, 1160113, 1168519, 1176987, 1185516, 1194106, 1202759, 1211475, 1220254, 1229096, 1238003,
  1246974, 1256010, 1265112, 1274279, 1283513, 1292814, 1302182, 1311618, 1321123, 1330696, 1340339, 1350052,
  1359835, 1369689, 1379614, 1389611, 1399681, 1409824, 1420040, 1430330, 1440695, 1451135, 1461650, 1472242,
  1482910, 1493656, 1504480, 1515382, 1526363, 1537424, 1548564, 1559786, 1571089, 1582474, 1593941, 1605491,
  1617125, 1628844, 1640647, 1652536, 1664511, 1676572, 1688722, 1700959, 1713285, 1725700, 1738205, 1750801,
  1763488, 1776267, 1789138, 1802103, 1815162, 1828315, 1841564, 1854909, 1868350, 1881889, 1895526, 1909262,
  1923097, 1937032, 1951069, 1965207, 1979448, 1993792, 2008240, 2022792, 2037450, 2052214, 2067086, 2082065,
  2097152 >>

(* The tables are what they say: cos is 1 at 0 and 0 at a quarter turn, and satisfies                  *)
(* c(j-1) + c(j+1) = 2 cos(1) c(j) up to rounding; the scale is geometric.                             *)
AbsT(x) == IF x < 0 THEN -x ELSE x
ASSUME /\ Quarter[1] = 2^20 /\ Quarter[1025] = 0
       (* 2 - 2 cos(step) = 2.3530941e-6: second differences are -c(j) * that *)
       /\ \A j \in 2 .. 1024 : AbsT((Quarter[j - 1] + Quarter[j + 1] - 2 * Quarter[j]) * 1000 + ((Quarter[j] \div 1000) * 2353) \div 1000) <= 2010
       (* cos(60 deg) lies between steps 682 and 683 *)
       /\ Quarter[683] > 2^19 /\ Quarter[684] < 2^19
ASSUME /\ Scale96[1] = 2^20 /\ Scale96[97] = 2^21
       /\ \A j \in 1 .. 96 : Scale96[j + 1] > Scale96[j]
       /\ \A j \in 1 .. 48 : (* T(j) T(96-j) = 2^41 *)
            AbsT((Scale96[j + 1] \div 64) * (Scale96[97 - j] \div 64) - 2^29) < 2^16
       /\ \A j \in 0 .. 47 : (* T(2j) = T(j)^2 *)
            AbsT((Scale96[j + 1] \div 64) * (Scale96[j + 1] \div 64) - Scale96[2 * j + 1] * 256) < 2^16

(* kind, first band y, height h in bands, width w in rows; t: 2^16 e^threshold, the thresholds beside *)
Test1 == <<
  [kind |-> 0, y |->  0, h |->  3, w |-> 15, t |-> <<538092, 762147, 969460>>],   \* 2.10543, 2.45354, 2.69414
  [kind |-> 1, y |->  0, h |->  4, w |-> 14, t |-> <<46371, 68647, 102396>>],   \* -0.345922, 0.0463746, 0.446251
  [kind |-> 1, y |->  4, h |->  4, w |-> 11, t |-> <<44277, 67472, 102104>>],   \* -0.392132, 0.0291077, 0.443391
  [kind |-> 3, y |->  0, h |->  4, w |-> 14, t |-> <<54041, 65920, 80371>>],   \* -0.192851, 0.00583535, 0.204053
  [kind |-> 2, y |->  8, h |->  2, w |->  4, t |-> <<60669, 64889, 69418>>],   \* -0.0771619, -0.00991999, 0.0575406
  [kind |-> 5, y |->  6, h |->  2, w |-> 15, t |-> <<32206, 39003, 47096>>],   \* -0.710437, -0.518954, -0.330402
  [kind |-> 1, y |->  9, h |->  2, w |-> 16, t |-> <<46011, 64304, 87564>>],   \* -0.353724, -0.0189719, 0.289768
  [kind |-> 3, y |->  4, h |->  2, w |-> 10, t |-> <<57638, 63690, 69531>>],   \* -0.128418, -0.0285697, 0.0591791
  [kind |-> 3, y |->  9, h |->  2, w |-> 16, t |-> <<57028, 64056, 71563>>],   \* -0.139052, -0.0228468, 0.0879723
  [kind |-> 2, y |->  1, h |->  3, w |->  6, t |-> <<57342, 65976, 76525>>],   \* -0.133562, 0.00669205, 0.155012
  [kind |-> 3, y |->  3, h |->  6, w |->  2, t |-> <<63809, 66066, 68620>>],   \* -0.0267, 0.00804829, 0.0459773
  [kind |-> 2, y |->  8, h |->  1, w |-> 10, t |-> <<59463, 66541, 74560>>],   \* -0.0972417, 0.0152227, 0.129003
  [kind |-> 3, y |->  4, h |->  4, w |-> 14, t |-> <<56893, 65782, 76137>>],   \* -0.141434, 0.00374515, 0.149935
  [kind |-> 5, y |->  4, h |->  2, w |-> 15, t |-> <<34545, 41083, 49260>>],   \* -0.64035, -0.466999, -0.285493
  [kind |-> 5, y |->  9, h |->  2, w |->  3, t |-> <<47456, 50823, 55054>>],   \* -0.322792, -0.254258, -0.174278
  [kind |-> 2, y |->  1, h |->  8, w |->  4, t |-> <<60853, 65150, 69591>>]    \* -0.0741375, -0.00590933, 0.0600357
>>
Test2 == <<
  [kind |-> 0, y |->  4, h |->  3, w |-> 15, t |-> <<475682, 692820, 913999>>],   \* 1.98215, 2.35817, 2.63523
  [kind |-> 4, y |->  4, h |->  6, w |-> 15, t |-> <<23208, 34171, 49424>>],   \* -1.03809, -0.651211, -0.282167
  [kind |-> 1, y |->  0, h |->  4, w |-> 16, t |-> <<48613, 73837, 114560>>],   \* -0.298702, 0.119262, 0.558497
  [kind |-> 3, y |->  8, h |->  2, w |-> 12, t |-> <<58978, 66553, 75076>>],   \* -0.105439, 0.0153946, 0.135898
  [kind |-> 3, y |->  4, h |->  4, w |->  8, t |-> <<56810, 67254, 80096>>],   \* -0.142891, 0.0258736, 0.200632
  [kind |-> 4, y |->  0, h |->  3, w |->  5, t |-> <<28682, 36306, 45349>>],   \* -0.826319, -0.590612, -0.368214
  [kind |-> 1, y |->  2, h |->  2, w |->  9, t |-> <<37532, 51913, 69134>>],   \* -0.557409, -0.233035, 0.0534525
  [kind |-> 2, y |->  7, h |->  3, w |->  4, t |-> <<61431, 65944, 70887>>],   \* -0.0646826, 0.00620476, 0.0784847
  [kind |-> 2, y |->  6, h |->  2, w |-> 16, t |-> <<54066, 63618, 81325>>],   \* -0.192387, -0.029699, 0.215855
  [kind |-> 2, y |->  1, h |->  3, w |->  2, t |-> <<62980, 65165, 67478>>],   \* -0.0397818, -0.00568076, 0.0292026
  [kind |-> 5, y |-> 10, h |->  1, w |-> 15, t |-> <<38259, 45271, 54183>>],   \* -0.53823, -0.369934, -0.190235
  [kind |-> 3, y |->  6, h |->  2, w |-> 10, t |-> <<57842, 67508, 75327>>],   \* -0.124877, 0.0296483, 0.139239
  [kind |-> 2, y |->  1, h |->  1, w |-> 14, t |-> <<59212, 67031, 82646>>],   \* -0.101475, 0.0225617, 0.231971
  [kind |-> 3, y |->  5, h |->  6, w |->  4, t |-> <<60498, 65060, 69816>>],   \* -0.0799915, -0.00729616, 0.063262
  [kind |-> 1, y |->  9, h |->  2, w |-> 12, t |-> <<49901, 66821, 88691>>],   \* -0.272556, 0.019424, 0.302559
  [kind |-> 3, y |->  4, h |->  2, w |-> 14, t |-> <<55607, 63465, 71324>>]    \* -0.164292, -0.0321188, 0.0846339
>>
Test3 == Test2
ClassifiersOf(preset) == IF preset = 1 THEN Test1 ELSE IF preset = 3 THEN Test3 ELSE Test2
==============================================================================
