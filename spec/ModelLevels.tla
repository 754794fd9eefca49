---------------------------- MODULE ModelLevels ----------------------------
(* The 137 model levels of ERA5 (ECMWF L137): coefficients of the 138 half   *)
(* levels, p = a + b * surface pressure; a in sixteenths of a Pa, b * 2^26.  *)
EXTENDS Integers, Sequences
HalfA == <<
   0, 32, 50, 75, 109, 156, 218, 298, 400, 528, 686, 879, 1112, 1390, 1719, 2103, 2548, 3061, 
   3648, 4313, 5063, 5904, 6841, 7882, 9031, 10293, 11676, 13183, 14822, 16595, 18510, 20570, 
   22780, 25146, 27671, 30360, 33218, 36247, 39452, 42838, 46406, 50162, 54108, 58247, 62584, 
   67119, 71853, 76786, 81918, 87248, 92774, 98497, 104431, 110590, 116990, 123639, 130550, 
   137736, 145222, 153003, 161056, 169354, 177867, 186561, 195385, 204270, 213195, 222101, 
   230914, 239610, 248132, 256418, 264437, 272141, 279482, 286426, 292935, 298972, 304501, 
   309496, 313921, 317750, 320959, 323515, 325406, 326597, 327073, 326812, 325789, 323992, 
   321393, 317984, 313737, 308644, 302679, 295835, 288111, 279549, 270219, 260193, 249547, 
   238375, 226773, 214844, 202692, 190421, 178133, 165923, 153880, 142087, 130614, 119526, 
   108871, 98696, 89030, 79901, 71318, 63295, 55828, 48916, 42546, 36708, 31384, 26552, 22201, 
   18292, 14824, 11760, 9089, 6791, 4840, 3240, 1954, 1004, 365, 60, 0, 0 >>
HalfB == <<
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 470, 1611, 3959, 
   7516, 13355, 22817, 37715, 59727, 90798, 133681, 191730, 266489, 360911, 478688, 621495, 
   792287, 994285, 1229300, 1500219, 1809523, 2159295, 2551882, 2989566, 3474427, 4008278, 
   4593468, 5231673, 5924773, 6674782, 7482974, 8351564, 9282028, 10276045, 11335358, 12461378, 
   13656050, 14920515, 16256720, 17665872, 19149783, 20709661, 22343158, 24042019, 25794164, 
   27590132, 29419922, 31272932, 33138357, 35005259, 36862966, 38701145, 40510132, 42281000, 
   44005698, 45677179, 47289536, 48837738, 50318025, 51727378, 53064120, 54327041, 55516210, 
   56631895, 57675505, 58648382, 59552943, 60391267, 61166240, 61880815, 62537475, 63140046, 
   63690607, 64192984, 64649458, 65062916, 65436377, 65771519, 66071495, 66337112, 66570919, 
   66773521, 66949816, 67108864 >>
=============================================================================
