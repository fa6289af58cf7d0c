-------------------------------- MODULE Macros -------------------------------
(***************************************************************************)
(* GENERATED by tools/mk_macros.py: identifiers (as arcs, in groups of     *)
(* seven bits) and numbers (as eight octets) written with the compile-time *)
(* macros in harness/src/macros.rs, in the same order.                     *)
(***************************************************************************)
MacroAbsolute == <<
  <<<<0>>, <<0>>>>,
  <<<<0>>, <<1>>>>,
  <<<<0>>, <<7>>>>,
  <<<<0>>, <<8>>>>,
  <<<<0>>, <<15>>>>,
  <<<<0>>, <<16>>>>,
  <<<<0>>, <<38>>>>,
  <<<<0>>, <<39>>>>,
  <<<<1>>, <<0>>>>,
  <<<<1>>, <<1>>>>,
  <<<<1>>, <<7>>>>,
  <<<<1>>, <<8>>>>,
  <<<<1>>, <<15>>>>,
  <<<<1>>, <<16>>>>,
  <<<<1>>, <<38>>>>,
  <<<<1>>, <<39>>>>,
  <<<<2>>, <<0>>>>,
  <<<<2>>, <<1>>>>,
  <<<<2>>, <<7>>>>,
  <<<<2>>, <<8>>>>,
  <<<<2>>, <<15>>>>,
  <<<<2>>, <<16>>>>,
  <<<<2>>, <<38>>>>,
  <<<<2>>, <<39>>>>,
  <<<<1>>, <<2>>, <<0>>>>,
  <<<<1>>, <<2>>, <<1>>>>,
  <<<<1>>, <<2>>, <<2>>>>,
  <<<<1>>, <<2>>, <<39>>>>,
  <<<<1>>, <<2>>, <<40>>>>,
  <<<<1>>, <<2>>, <<47>>>>,
  <<<<1>>, <<2>>, <<79>>>>,
  <<<<1>>, <<2>>, <<80>>>>,
  <<<<1>>, <<2>>, <<127>>>>,
  <<<<1>>, <<2>>, <<1, 0>>>>,
  <<<<1>>, <<2>>, <<1, 1>>>>,
  <<<<1>>, <<2>>, <<1, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0>>>>,
  <<<<1>>, <<2>>, <<6, 72>>>>,
  <<<<1>>, <<2>>, <<63, 127>>>>,
  <<<<1>>, <<2>>, <<64, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 1>>>>,
  <<<<1>>, <<2>>, <<6, 119, 13>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<7, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<8, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<15, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<16, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<16, 0, 0, 1, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<0>>, <<0>>, <<0>>>>,
  <<<<2>>, <<39>>, <<1>>, <<0>>, <<1>>>>,
  <<<<2>>, <<39>>, <<2>>, <<0>>, <<2>>>>,
  <<<<2>>, <<39>>, <<39>>, <<0>>, <<39>>>>,
  <<<<2>>, <<39>>, <<40>>, <<0>>, <<40>>>>,
  <<<<2>>, <<39>>, <<47>>, <<0>>, <<47>>>>,
  <<<<2>>, <<39>>, <<79>>, <<0>>, <<79>>>>,
  <<<<2>>, <<39>>, <<80>>, <<0>>, <<80>>>>,
  <<<<2>>, <<39>>, <<127>>, <<0>>, <<127>>>>,
  <<<<2>>, <<39>>, <<1, 0>>, <<0>>, <<1, 0>>>>,
  <<<<2>>, <<39>>, <<1, 1>>, <<0>>, <<1, 1>>>>,
  <<<<2>>, <<39>>, <<1, 127>>, <<0>>, <<1, 127>>>>,
  <<<<2>>, <<39>>, <<2, 0>>, <<0>>, <<2, 0>>>>,
  <<<<2>>, <<39>>, <<6, 72>>, <<0>>, <<6, 72>>>>,
  <<<<2>>, <<39>>, <<63, 127>>, <<0>>, <<63, 127>>>>,
  <<<<2>>, <<39>>, <<64, 0>>, <<0>>, <<64, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127>>, <<0>>, <<127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0>>, <<0>>, <<1, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 0, 1>>, <<0>>, <<1, 0, 1>>>>,
  <<<<2>>, <<39>>, <<6, 119, 13>>, <<0>>, <<6, 119, 13>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127>>, <<0>>, <<127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<7, 127, 127, 127, 127>>, <<0>>, <<7, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<8, 0, 0, 0, 0>>, <<0>>, <<8, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<15, 127, 127, 127, 127>>, <<0>>, <<15, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<16, 0, 0, 0, 0>>, <<0>>, <<16, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<16, 0, 0, 1, 0>>, <<0>>, <<16, 0, 0, 1, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>,
  <<<<2>>, <<39>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<39>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<0>>, <<0>>>>,
  <<<<0>>, <<9>>, <<18, 38>>, <<9, 19, 114, 44>>, <<100>>, <<1>>, <<25>>>>,
  <<<<2>>, <<16>>, <<6, 72>>, <<1>>, <<101>>, <<3>>, <<4>>, <<2>>, <<1>>>>,
  <<<<1>>, <<3>>, <<6>>, <<1>>, <<4>>, <<1>>, <<2, 55>>, <<60>>, <<2>>, <<1>>, <<3>>>>,
  <<<<1>>, <<5>>, <<48, 68, 72, 76, 6, 99, 106, 107, 73>>>>,
  <<<<2>>, <<22>>, <<1, 0, 0>>, <<28>>, <<43, 117, 37, 23, 3, 49, 97, 124, 78, 6, 43, 72, 25, 110, 54, 76, 30, 10>>>>,
  <<<<2>>, <<31>>, <<1, 0, 0, 0, 0, 0, 0>>, <<98, 84>>, <<6, 72>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 30>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<123, 124>>, <<124, 96, 33, 97, 26, 72, 98, 67, 92>>, <<104>>, <<1, 55>>, <<1, 44, 126>>, <<1, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<33>>, <<21, 9, 89>>, <<16, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<105, 5>>>>,
  <<<<2>>, <<21>>, <<69, 50>>, <<1, 12, 69>>>>,
  <<<<0>>, <<16>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<84>>>>,
  <<<<2>>, <<9>>, <<115>>, <<39>>>>,
  <<<<2>>, <<26>>, <<1, 1>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<44>>, <<7, 127, 127, 127, 127>>, <<9>>, <<127, 127>>, <<1, 65>>, <<27, 82>>, <<79>>, <<88, 50, 121, 18>>, <<4, 6, 34, 99, 92>>>>,
  <<<<1>>, <<10>>, <<84, 5>>>>,
  <<<<1>>, <<10>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<104, 110>>, <<105>>, <<3>>, <<1, 0, 0, 0>>, <<2, 42, 41, 51, 118, 51, 124, 80, 5, 96>>, <<1, 0, 0, 0>>, <<60, 23, 15>>, <<2, 111, 103, 97, 107, 31, 80, 17, 22, 104, 115, 12, 41, 114, 124, 101, 57, 43, 72>>, <<43>>, <<100>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<13>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<27>>, <<61, 59>>, <<67, 44, 7, 83>>>>,
  <<<<2>>, <<19>>, <<63, 127>>, <<127, 127, 127, 127, 127, 127>>, <<86>>, <<74, 84>>, <<89, 56>>>>,
  <<<<1>>, <<17>>, <<7, 127, 127, 127, 127>>, <<15, 127, 127, 127, 127>>, <<68, 123>>, <<49>>, <<127, 127>>, <<1, 0, 0, 0, 0, 0, 0>>, <<79>>, <<35>>>>,
  <<<<2>>, <<28>>, <<127, 127>>>>,
  <<<<0>>, <<15>>, <<15, 127, 127, 127, 127>>, <<1, 0, 0>>, <<1, 0, 0, 0, 0>>, <<79, 79, 25, 76>>, <<1, 127>>, <<1, 45, 119, 124, 26, 41, 99, 0, 22, 98>>, <<79>>, <<5, 31, 127, 66>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 101, 69>>, <<105>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<83, 86, 66>>, <<127>>, <<20>>, <<6, 72>>, <<96, 123>>, <<72, 68, 37, 71, 7>>, <<68, 6>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<113, 60, 4, 25, 103, 38, 113, 57, 32>>, <<127, 127, 127, 127>>, <<106, 47>>, <<127, 127, 127, 127, 127, 127>>, <<92, 88>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<26, 121, 91, 96>>>>,
  <<<<1>>, <<26>>, <<2>>, <<120, 123>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<31, 61>>, <<85>>, <<1, 81, 68>>, <<8, 0, 0, 0, 0>>, <<1, 119, 87>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 27, 92, 29, 119, 125, 2, 84, 76, 93>>, <<1, 41>>, <<58>>, <<8, 0, 0, 0, 0>>>>,
  <<<<2>>, <<24>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<15, 127, 127, 127, 127>>, <<124, 97>>, <<36>>, <<1, 64, 39, 48>>>>,
  <<<<2>>, <<32>>, <<1, 109, 67, 79>>, <<16, 0, 0, 0, 0>>, <<1, 122>>, <<79>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<88, 64, 87, 44, 123>>, <<127, 127, 127, 127>>, <<90, 9>>, <<126, 35>>, <<123, 30, 124, 32, 85, 52, 75, 84, 106>>, <<63, 127>>, <<8, 13, 58, 10>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<14, 23>>, <<1, 84, 37, 104>>, <<2>>, <<65>>, <<69, 91>>, <<3, 34, 77, 13, 2, 79, 112, 70, 120, 15>>, <<2, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 127>>, <<127, 127, 127, 127, 127, 127>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<72>>, <<2, 11, 92, 94, 61, 44, 98, 33, 27, 5>>, <<127>>>>,
  <<<<0>>, <<0>>, <<1, 90, 60, 109, 109, 112, 17, 19, 108, 39>>, <<127, 127, 127, 127, 127>>, <<85, 106>>, <<106, 68, 91>>, <<6, 72>>, <<18>>, <<127>>, <<1, 29, 14, 95>>>>,
  <<<<1>>, <<32>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<13, 54, 73, 79, 90>>, <<105>>, <<14, 94, 62, 115>>>>,
  <<<<2>>, <<27>>, <<6, 72>>, <<2, 85, 79, 57, 62, 127, 94, 52, 100, 32>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0>>, <<117, 80>>, <<1, 1>>, <<5, 46, 93, 98, 20>>, <<1, 70, 81, 28>>>>,
  <<<<0>>, <<9>>, <<8, 5, 39, 23, 42, 24, 54, 34, 40>>, <<16, 0, 0, 1, 0>>>>,
  <<<<0>>, <<10>>, <<118>>, <<11, 106>>, <<1, 74, 20>>, <<8, 0, 0, 0, 0>>, <<3, 36, 26, 81, 27, 22, 2, 87, 43, 16>>>>,
  <<<<0>>, <<11>>, <<2>>, <<27>>>>,
  <<<<2>>, <<21>>, <<15, 127, 127, 127, 127>>, <<1, 7>>, <<1, 44, 106>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 57, 78>>, <<1, 80>>, <<1, 0, 0, 0>>, <<112>>, <<89, 106>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<35>>, <<80>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<14>>, <<1, 26>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<120, 127, 34, 1, 20, 12, 44, 9, 6>>, <<6, 72>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127, 127, 127, 127, 127>>, <<86, 118>>, <<1, 22>>>>,
  <<<<1>>, <<3>>, <<8>>, <<127>>, <<1, 127>>, <<16, 0, 0, 0, 0>>, <<90>>, <<79>>, <<37, 92>>, <<2, 61, 27, 76, 115, 31, 124, 60, 30, 45, 59, 92, 24, 27, 46, 86, 95, 21, 76>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<126, 107>>, <<98, 108, 119>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<25>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<<<0>>, <<23>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0>>, <<33, 96, 24, 103, 61>>, <<103>>, <<62, 6>>, <<3, 123, 82, 67, 59, 115, 76, 66, 27, 39, 89, 22, 35, 84, 2, 96, 84, 105, 82>>, <<1, 74, 30>>, <<80>>, <<7, 127, 127, 127, 127>>, <<15, 127, 127, 127, 127>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<68>>, <<6, 72>>, <<0>>, <<106>>, <<1, 127>>, <<50>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<40>>, <<0>>, <<1, 0, 0, 0, 0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<65, 125, 0>>, <<73, 98>>, <<113>>, <<1, 0, 0>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<0>>, <<3>>, <<47>>, <<127>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 71>>>>,
  <<<<1>>, <<32>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<10>>, <<1, 89, 60>>>>,
  <<<<0>>, <<36>>, <<127, 127, 127>>, <<42, 62, 85>>, <<62, 46, 110, 15>>, <<26>>, <<81, 65>>, <<100, 79, 85, 14, 100, 88, 98, 103, 98>>, <<15, 127, 127, 127, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<39>>, <<127, 127, 127>>, <<1, 48, 113>>, <<1, 20>>, <<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<0>>, <<14>>, <<69>>, <<16, 0, 0, 1, 0>>, <<61, 58, 101>>, <<49>>>>,
  <<<<0>>, <<33>>, <<1, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<90>>, <<21, 16, 56, 52, 31, 16, 103, 76, 18>>>>,
  <<<<0>>, <<21>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<104, 78, 82, 26>>, <<40, 71>>>>,
  <<<<2>>, <<25>>, <<2, 0>>>>,
  <<<<2>>, <<27>>, <<46, 74, 18, 81, 60>>, <<127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<3, 39, 10, 39, 126, 25, 90, 43, 53, 84, 57, 117, 48, 3, 83, 1, 101, 116, 1>>>>,
  <<<<2>>, <<28>>, <<79>>, <<82, 50>>, <<2, 21, 125, 11, 32, 53, 54, 94, 112, 37>>, <<127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<111, 119>>, <<1>>, <<74, 91>>, <<3, 26, 106, 57, 27>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<63, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2, 0>>, <<43>>, <<127, 127, 127>>, <<63, 85, 61>>, <<16, 62>>, <<63, 8, 113, 97, 14>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<13, 79>>, <<1, 104, 87>>, <<1, 127>>, <<1, 18, 54, 58, 20, 72, 72, 27, 46, 91>>, <<105, 82, 109, 118, 13>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 72, 92, 116, 52, 73, 125, 14, 63, 51>>, <<3, 124, 88, 15, 50, 52, 118, 73, 115, 23>>, <<8, 0, 0, 0, 0>>>>,
  <<<<0>>, <<30>>, <<1, 25, 22, 75>>, <<0>>>>,
  <<<<1>>, <<39>>, <<16, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<79, 119>>>>,
  <<<<2>>, <<36>>, <<89, 85>>, <<1, 49>>, <<1, 37>>, <<49, 34>>, <<127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 48>>, <<49>>>>,
  <<<<2>>, <<26>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<5>>, <<19, 0, 73>>, <<14, 76, 54, 125, 21, 101, 87, 18, 120>>, <<39, 78, 55, 98, 106>>, <<127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<26>>, <<111>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 119>>, <<47>>, <<15, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127>>, <<97, 0, 114>>, <<1, 0, 0>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 109, 115, 23>>, <<78, 118, 24, 65, 24>>, <<120>>, <<1, 127, 60, 92, 68, 31, 84, 113, 19, 31>>, <<1, 74>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<29>>, <<2, 47>>, <<41>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<2, 78, 126, 105, 62, 81, 9, 10, 119, 83, 93, 114, 115, 76, 106, 104, 95, 51, 121>>, <<1, 0, 0, 0, 0, 0, 0>>, <<75, 83>>, <<43>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<48>>, <<119, 40, 121, 42, 100, 68, 36, 31, 48, 51, 63, 60, 109, 3, 40, 121, 19, 106>>>>,
  <<<<0>>, <<28>>, <<33, 127>>, <<12>>>>,
  <<<<0>>, <<28>>, <<47, 99>>, <<45, 26, 58, 92, 19>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<3, 102, 61, 7, 38, 55, 22, 118, 71, 78>>>>,
  <<<<0>>, <<0>>, <<106>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<3, 17, 47, 110, 115, 18, 17, 33, 21, 58, 47, 23, 42, 105, 37, 3, 86, 101, 40>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<22, 70>>, <<1>>, <<110, 116>>, <<127, 127, 127, 127, 127, 127>>, <<44, 52>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<36>>, <<78, 42, 88, 76, 75>>, <<6>>>>,
  <<<<2>>, <<4>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<74, 92, 117, 67, 123>>, <<70, 58>>, <<11, 68>>>>,
  <<<<0>>, <<14>>, <<1, 0, 0, 0>>, <<30, 83, 106, 118, 21, 33, 66, 52, 93>>>>,
  <<<<0>>, <<20>>, <<111>>, <<8, 0, 0, 0, 0>>, <<1, 72, 15, 50, 10, 123, 64, 69, 39, 28>>, <<98, 21, 86, 4, 126>>, <<22, 11>>, <<127>>, <<111>>, <<110>>>>,
  <<<<2>>, <<17>>, <<67, 126>>>>,
  <<<<1>>, <<21>>, <<27>>, <<113>>, <<103, 113, 51, 19, 117>>, <<2>>>>,
  <<<<2>>, <<38>>, <<1, 0>>, <<1>>, <<1, 0, 1>>, <<94, 82>>, <<1, 66, 61, 90, 119, 56, 37, 126, 70, 37, 21, 95, 105, 116, 102, 77, 19, 62, 65>>, <<39, 51>>, <<17, 57>>, <<127, 127>>, <<127, 127, 127, 127>>, <<81, 61>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 105>>, <<1, 11, 75, 89, 61, 119, 49, 103, 106, 7, 26, 97, 81, 51, 87, 30, 122, 52, 85>>, <<66, 23>>, <<1, 49>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<43>>, <<1, 95, 27>>, <<1, 1>>, <<108, 21>>, <<3, 57, 21, 30, 60, 54, 43, 66, 75, 124>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<10>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<2>>, <<1, 111, 115>>, <<1, 1>>, <<112, 77>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1, 47>>>>,
  <<<<2>>, <<3>>, <<80>>, <<58>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<37>>, <<105, 104, 69, 14, 15, 99, 71, 95, 62>>, <<120, 85, 25, 34, 0, 113, 55, 125, 0>>, <<111, 69>>>>,
  <<<<2>>, <<5>>, <<80>>, <<1, 68>>>>,
  <<<<2>>, <<10>>, <<1, 105, 4, 30, 114, 57, 55, 121, 1, 21>>, <<46>>, <<1, 1>>, <<67>>, <<61>>, <<80>>, <<43>>, <<1, 38, 56>>>>,
  <<<<1>>, <<39>>, <<46, 72>>, <<34>>, <<104, 80, 61, 55, 67>>, <<127, 127, 127, 127>>, <<16, 0, 0, 0, 0>>>>,
  <<<<0>>, <<13>>, <<1, 0>>, <<1, 8>>, <<19, 7, 113, 103, 53, 90, 54, 15, 0>>, <<127, 127, 127>>>>,
  <<<<1>>, <<5>>, <<0>>, <<49, 44>>, <<104, 125, 18>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<118>>, <<84, 76, 94, 112>>, <<16, 0, 0, 0, 0>>, <<60, 118, 4, 62>>>>,
  <<<<0>>, <<29>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<16>>, <<126, 121>>, <<8, 0, 0, 0, 0>>, <<36, 56>>>>,
  <<<<0>>, <<39>>, <<0>>, <<1, 22>>>>,
  <<<<2>>, <<10>>, <<103, 122>>, <<30, 98>>, <<64, 0>>, <<18, 36, 44>>, <<16, 29, 41>>, <<69, 115, 68, 109, 122, 125, 33, 99, 22>>, <<75, 114, 62, 97, 126, 112, 67, 96, 99, 68, 4, 2, 16, 9, 96, 18, 127, 46>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<63, 127>>, <<127, 127, 127, 127, 127>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>, <<2, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<5, 51, 56>>, <<1>>, <<1, 78>>, <<1, 75>>, <<27, 56, 98, 89, 68, 8, 106, 110, 92>>, <<1, 0>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<63, 22>>, <<3, 90, 14, 118, 107, 42, 122, 41, 113, 48, 6, 54, 75, 45, 70, 107, 92, 73, 115>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 113, 127, 49, 121, 91, 87, 100, 61, 119, 98, 61, 84, 34, 31, 21, 65, 104, 107>>, <<1, 119, 120, 105, 122, 68, 95, 35, 10, 60, 73, 114, 75, 55, 124, 99, 43, 80, 58>>, <<68, 40>>, <<127, 127, 127>>, <<30, 69, 103, 125, 95, 38, 86, 8>>, <<97, 77>>>>,
  <<<<1>>, <<27>>, <<127, 127>>, <<127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<39>>, <<0>>, <<120, 9, 105>>, <<43, 7, 10, 9, 61, 95, 74, 107, 99>>, <<69, 127>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<4, 124>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<17, 27, 71, 68, 23>>, <<1>>>>,
  <<<<0>>, <<4>>, <<4, 4>>>>,
  <<<<2>>, <<32>>, <<67>>, <<102>>, <<71, 71, 98, 73, 65, 18, 110, 120, 93>>, <<28, 54, 109>>, <<79>>, <<110, 50, 126, 74>>, <<99, 81>>, <<1, 19, 50>>, <<3, 82, 46, 23, 93, 39, 74, 0, 80, 12>>, <<34>>, <<6, 72>>, <<3, 11, 47, 111, 25, 47, 101, 0, 37, 17, 77, 3, 29, 98, 123, 79, 17, 71, 125>>, <<115, 85, 10>>, <<127>>, <<47>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<8, 0, 0, 0, 0>>, <<127, 127, 127>>, <<2, 124, 34, 107, 109, 78, 110, 64, 24, 114, 76, 57, 96, 26, 123, 14, 118, 68, 50>>, <<2, 59, 75, 74, 104, 122, 127, 19, 24, 99>>, <<1, 49, 16>>, <<127, 127, 127, 127>>, <<49, 40>>, <<127>>, <<115, 114>>, <<80>>, <<85, 29>>, <<1, 108, 92>>, <<74, 81, 100>>, <<96, 80>>>>,
  <<<<2>>, <<24>>, <<1, 23, 96>>, <<77, 126>>, <<1, 2, 62>>, <<117, 74>>, <<8, 38>>, <<56>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<1, 0>>, <<102>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<20>>, <<83, 122, 25>>, <<83, 93>>>>,
  <<<<2>>, <<8>>, <<1, 23, 23, 28, 83, 87, 115, 7, 77, 49>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 0, 0>>>>,
  <<<<0>>, <<0>>, <<1, 87>>>>,
  <<<<1>>, <<34>>, <<54>>, <<111, 34, 86, 118, 38, 45, 8, 13, 115, 4, 41, 23, 78, 31, 105, 86, 66, 105>>, <<1, 0, 0, 0, 0>>, <<1, 13, 46>>, <<1, 0>>>>,
  <<<<2>>, <<6>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<42>>>>,
  <<<<0>>, <<16>>, <<1, 68>>, <<16, 0, 0, 0, 0>>, <<108, 72>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 92, 57>>, <<13>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<6, 36>>, <<55>>, <<31, 83>>, <<0>>, <<127, 15, 100, 71>>, <<3, 102, 41, 109, 68, 17, 44, 37, 3, 24>>, <<1, 19, 58, 6>>, <<77, 62, 69, 37, 68, 124, 114, 9, 60>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<75>>, <<91>>, <<1, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127>>, <<1, 123, 62>>, <<49, 63>>, <<119, 84, 76>>, <<1, 40>>, <<37, 96, 17, 39, 114>>, <<59, 104>>, <<1, 1>>>>,
  <<<<2>>, <<13>>, <<1, 0>>, <<58, 59>>, <<85>>, <<1, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0>>, <<51, 29, 36, 33, 7, 46, 20, 105, 80>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 127>>>>,
  <<<<1>>, <<18>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<39, 55, 109, 98, 60, 57, 95, 73, 124, 44, 23, 55, 119, 70, 84, 0, 59, 32>>, <<127, 127>>, <<79>>, <<78>>, <<0>>, <<9>>, <<14>>>>,
  <<<<1>>, <<22>>, <<118, 52, 14>>, <<26>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<77, 56>>>>,
  <<<<0>>, <<39>>, <<1, 127>>, <<29, 48>>, <<1, 67, 59>>, <<74, 42>>, <<1, 2, 70>>>>,
  <<<<2>>, <<3>>, <<1, 87>>, <<53, 58, 2, 3, 110, 89, 111, 87, 124>>, <<1, 0, 0, 0, 0>>, <<1, 0, 1>>, <<39>>, <<1, 63, 74, 54, 41, 53, 75, 59, 120, 85>>, <<48>>, <<1, 45, 55, 98, 14, 10, 94, 106, 111, 123>>, <<84>>, <<2, 112, 23, 67, 77, 84, 58, 25, 65, 62, 33, 96, 120, 122, 7, 12, 43, 94, 32>>, <<6, 72>>, <<21, 47, 39, 123, 65, 61, 61, 115, 43>>, <<1, 0, 0>>, <<66, 48, 125, 23, 84, 116, 97, 99, 35>>, <<17>>, <<1, 127>>, <<16, 0, 0, 1, 0>>, <<44>>, <<1, 0, 1>>, <<38, 11, 99, 32>>, <<101, 52, 28, 118, 37, 84, 123, 106, 30, 4, 55, 13, 44, 63, 52, 124, 98, 46>>, <<1, 0, 0, 0, 0, 0, 0>>, <<68, 67, 55>>, <<1, 119, 42, 55, 99, 109, 43, 119, 37, 38>>, <<76>>, <<32, 27, 63, 77, 56, 8, 24, 58, 61>>, <<23, 68>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0>>, <<29>>>>,
  <<<<0>>, <<30>>, <<115, 54>>, <<3, 35, 28, 122, 42, 106, 27, 75, 56, 112, 4, 62, 9, 4, 117, 77, 10, 8, 39>>, <<77>>, <<54, 45>>, <<1, 41, 2>>, <<1, 15>>, <<33, 26, 82>>, <<81>>>>,
  <<<<0>>, <<30>>, <<41, 32>>, <<2>>, <<29, 109, 91, 72, 78, 102, 21, 81, 77, 36, 18, 16, 78, 36, 31, 12, 85, 99>>>>,
  <<<<0>>, <<26>>, <<87, 29, 109, 7, 51, 4, 92, 97, 111>>, <<1, 99>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 1>>, <<102>>, <<1, 24>>, <<94, 32>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<15>>, <<1, 18, 119>>, <<23, 79, 110, 78>>, <<14>>>>,
  <<<<1>>, <<38>>, <<1, 86, 78>>, <<81, 44, 112, 82>>, <<1, 93>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<10>>, <<64, 0>>>>,
  <<<<1>>, <<3>>, <<77>>, <<61, 116>>>>,
  <<<<1>>, <<15>>, <<1, 94, 58>>>>,
  <<<<2>>, <<29>>, <<110, 64>>, <<106, 56, 19>>>>,
  <<<<1>>, <<1>>, <<2, 83, 108, 27, 13, 64, 106, 126, 81, 56, 104, 29, 26, 93, 79, 22, 40, 8, 2>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0>>, <<112, 97, 98, 12, 38, 82, 125, 84, 37>>, <<23, 100>>, <<1, 49>>, <<93, 25>>, <<29, 109>>>>,
  <<<<0>>, <<4>>, <<1, 82>>, <<3>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<29>>, <<127, 127, 127, 127>>, <<116, 24, 125, 88, 123, 74, 47, 11, 66>>, <<3, 38, 8, 77, 110, 49, 14, 107, 21, 89>>, <<104>>>>,
  <<<<1>>, <<21>>, <<126, 38, 29, 96>>, <<80>>, <<36>>, <<1, 94>>, <<20, 10, 33, 40, 60, 18, 104, 116, 98>>, <<2, 14, 73, 116, 22, 34, 90, 55, 118, 83>>, <<1, 38, 90>>, <<2>>, <<1, 58>>, <<74, 37>>, <<84, 32, 10>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 1>>>>,
  <<<<2>>, <<24>>, <<16, 0, 0, 1, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<103>>, <<41, 18>>, <<127, 127, 127, 127, 127, 127>>, <<68, 57>>, <<16, 0, 0, 0, 0>>, <<57, 93, 74>>>>,
  <<<<1>>, <<35>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<89>>, <<1, 26, 23>>>>,
  <<<<2>>, <<23>>, <<9>>, <<1, 11>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<65, 82>>, <<74, 88>>, <<50, 92>>, <<112, 73>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<14, 48, 43, 1>>, <<94>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<20, 86, 95>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<8>>, <<70, 112>>, <<95, 8>>, <<1, 123, 67, 82, 12, 106, 58, 61, 49, 121>>, <<1, 126, 61, 59, 14, 85, 37, 3, 36, 99>>>>,
  <<<<1>>, <<16>>, <<2>>, <<1, 39>>, <<1, 30, 21>>, <<1, 127>>, <<39>>, <<93>>, <<66, 98>>, <<29, 108, 74>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<36>>, <<2, 103>>, <<1, 114, 15, 3, 8, 101, 26, 47, 13, 84, 13, 34, 94, 20, 117, 0, 7, 67, 84>>, <<44, 71, 11>>>>,
  <<<<0>>, <<31>>, <<1, 0>>, <<84>>, <<19, 7>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<71, 52>>>>,
  <<<<2>>, <<19>>, <<1, 1>>, <<46, 48, 43, 37, 80>>, <<79>>, <<1, 1>>>>,
  <<<<0>>, <<16>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 127, 107, 45, 86, 43, 113, 80, 37, 99, 4, 43, 35, 74, 76, 83, 123, 74, 10>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<79, 48>>, <<15, 51>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<46, 83>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<110, 68, 96>>, <<10, 53>>>>,
  <<<<1>>, <<20>>, <<127, 127, 127>>, <<112, 12, 57>>, <<1, 0, 0, 0, 0, 0, 0>>, <<63>>, <<61>>, <<36, 127>>, <<1, 0>>, <<54>>, <<6, 72>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<93, 67>>, <<109>>, <<127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<4>>, <<0>>, <<1, 52, 118>>, <<40>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<1, 0, 0, 0>>, <<73, 41>>, <<1, 82, 66, 74, 90, 5, 104, 81, 123, 89, 77, 46, 36, 64, 5, 1, 32, 66, 6>>, <<3>>, <<2>>, <<1, 0, 0, 0, 0, 0>>, <<22, 34, 106, 112>>, <<1, 71, 59, 28, 60, 113, 118, 102, 5, 4>>, <<1, 127, 24, 118>>>>,
  <<<<1>>, <<7>>, <<63, 48>>, <<3, 39, 41, 23, 126, 106, 45, 4, 80, 8, 95, 35, 121, 97, 13, 80, 15, 104, 0>>, <<16, 0, 0, 1, 0>>, <<11, 118>>, <<104, 57>>>>,
  <<<<0>>, <<9>>, <<13, 106>>, <<1, 40, 117>>, <<119, 81>>, <<1, 104>>, <<127, 127>>, <<55, 0, 19, 121, 19, 112, 71, 39, 38, 2, 42, 90, 97, 75, 70, 127, 36, 91>>, <<127, 127, 127, 127>>, <<1, 0, 0, 0, 0>>, <<26>>, <<1, 87>>, <<80>>, <<39, 85, 117, 61, 110>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<7>>, <<105, 24>>, <<1, 1>>, <<1, 0, 0, 0>>, <<127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<6>>, <<1, 22, 122>>, <<1, 11, 49, 108, 93, 47, 11, 6, 56, 58>>, <<1, 1>>, <<1, 39>>, <<93>>, <<127, 127, 127, 127, 127, 127>>, <<127>>, <<3, 42, 52, 26, 100, 34, 36, 110, 119, 6>>, <<24>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<83>>, <<123>>, <<117, 102, 9, 98, 72>>>>,
  <<<<1>>, <<7>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<39>>, <<16, 0, 0, 1, 0>>, <<13, 16, 53>>>>,
  <<<<2>>, <<37>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<53, 44, 108>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<3, 86, 53, 74, 64, 61, 47, 27, 80, 4>>, <<127, 127, 127, 127, 127, 127>>, <<1, 118>>, <<1, 33, 29, 12, 64, 43, 113, 86, 52, 104>>, <<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<0>>, <<14>>, <<6, 72>>>>,
  <<<<2>>, <<35>>, <<6, 119, 13>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 89, 96>>>>,
  <<<<1>>, <<6>>, <<103, 40>>, <<1, 0, 1>>, <<106>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<7>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 1, 0>>>>,
  <<<<0>>, <<1>>, <<127, 127, 127, 127, 127, 127>>, <<1, 94, 103, 110, 104, 114, 10, 36, 19, 7, 63, 82, 32, 93, 13, 125, 68, 92, 42>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<39, 111, 126>>, <<1, 104, 37>>>>,
  <<<<2>>, <<15>>, <<57, 12, 103>>>>,
  <<<<2>>, <<15>>, <<64, 19, 35>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<8, 0, 0, 0, 0>>>>,
  <<<<0>>, <<15>>, <<78, 95, 126>>, <<101>>, <<3, 30, 90, 108, 84, 68, 64, 43, 95, 110>>>>,
  <<<<0>>, <<7>>, <<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<92, 62, 76, 108, 30, 10, 104, 30, 88>>, <<124, 75>>, <<13>>, <<47>>, <<127>>, <<117>>, <<80>>, <<24, 51>>, <<91>>, <<1, 0, 1>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<0>>, <<12>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 106>>, <<127>>>> >>
MacroRelative == <<
  <<<<0>>>>,
  <<<<1>>>>,
  <<<<2>>>>,
  <<<<39>>>>,
  <<<<40>>>>,
  <<<<47>>>>,
  <<<<79>>>>,
  <<<<80>>>>,
  <<<<127>>>>,
  <<<<1, 0>>>>,
  <<<<1, 1>>>>,
  <<<<1, 127>>>>,
  <<<<2, 0>>>>,
  <<<<6, 72>>>>,
  <<<<63, 127>>>>,
  <<<<64, 0>>>>,
  <<<<127, 127>>>>,
  <<<<1, 0, 0>>>>,
  <<<<1, 0, 1>>>>,
  <<<<6, 119, 13>>>>,
  <<<<127, 127, 127>>>>,
  <<<<1, 0, 0, 0>>>>,
  <<<<127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0>>>>,
  <<<<7, 127, 127, 127, 127>>>>,
  <<<<8, 0, 0, 0, 0>>>>,
  <<<<15, 127, 127, 127, 127>>>>,
  <<<<16, 0, 0, 0, 0>>>>,
  <<<<16, 0, 0, 1, 0>>>>,
  <<<<127, 127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0>>>>,
  <<<<127, 127, 127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<0>>>>,
  <<<<1>>, <<0>>>>,
  <<<<2>>, <<0>>>>,
  <<<<39>>, <<0>>>>,
  <<<<40>>, <<0>>>>,
  <<<<47>>, <<0>>>>,
  <<<<79>>, <<0>>>>,
  <<<<80>>, <<0>>>>,
  <<<<127>>, <<0>>>>,
  <<<<1, 0>>, <<0>>>>,
  <<<<1, 1>>, <<0>>>>,
  <<<<1, 127>>, <<0>>>>,
  <<<<2, 0>>, <<0>>>>,
  <<<<6, 72>>, <<0>>>>,
  <<<<63, 127>>, <<0>>>>,
  <<<<64, 0>>, <<0>>>>,
  <<<<127, 127>>, <<0>>>>,
  <<<<1, 0, 0>>, <<0>>>>,
  <<<<1, 0, 1>>, <<0>>>>,
  <<<<6, 119, 13>>, <<0>>>>,
  <<<<127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0>>, <<0>>>>,
  <<<<127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0>>, <<0>>>>,
  <<<<7, 127, 127, 127, 127>>, <<0>>>>,
  <<<<8, 0, 0, 0, 0>>, <<0>>>>,
  <<<<15, 127, 127, 127, 127>>, <<0>>>>,
  <<<<16, 0, 0, 0, 0>>, <<0>>>>,
  <<<<16, 0, 0, 1, 0>>, <<0>>>>,
  <<<<127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>>>,
  <<<<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<0>>>>,
  <<<<0>>, <<0>>, <<1>>>>,
  <<<<0>>, <<1>>, <<1>>>>,
  <<<<0>>, <<2>>, <<1>>>>,
  <<<<0>>, <<39>>, <<1>>>>,
  <<<<0>>, <<40>>, <<1>>>>,
  <<<<0>>, <<47>>, <<1>>>>,
  <<<<0>>, <<79>>, <<1>>>>,
  <<<<0>>, <<80>>, <<1>>>>,
  <<<<0>>, <<127>>, <<1>>>>,
  <<<<0>>, <<1, 0>>, <<1>>>>,
  <<<<0>>, <<1, 1>>, <<1>>>>,
  <<<<0>>, <<1, 127>>, <<1>>>>,
  <<<<0>>, <<2, 0>>, <<1>>>>,
  <<<<0>>, <<6, 72>>, <<1>>>>,
  <<<<0>>, <<63, 127>>, <<1>>>>,
  <<<<0>>, <<64, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 0, 1>>, <<1>>>>,
  <<<<0>>, <<6, 119, 13>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<7, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<8, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<15, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<16, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<16, 0, 0, 1, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<1>>>>,
  <<<<0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1>>>>,
  <<<<0>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1>>>>,
  <<<<40>>, <<40>>>>,
  <<<<3>>, <<3>>, <<3>>>>,
  <<<<0>>, <<0>>, <<0>>, <<0>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127>>>>,
  <<<<21, 101, 39, 81>>, <<35, 13, 39>>>>,
  <<<<79>>, <<1, 26, 76>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<40>>, <<2>>, <<1, 19>>, <<1, 65, 39>>, <<1, 0, 0>>>>,
  <<<<118, 8>>, <<63>>, <<51, 85, 53, 74, 42, 90, 79, 27, 11>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<80>>, <<79>>, <<66>>, <<8>>, <<47>>, <<63, 127>>, <<1, 0, 0, 0, 0, 0>>, <<16, 0, 0, 1, 0>>, <<107, 1, 106, 69>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<62>>, <<2>>, <<9, 6, 3, 42, 87, 72, 48, 60, 13>>, <<127, 127, 127, 127>>, <<64>>, <<67, 13>>, <<57, 69>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 1, 0>>, <<106, 110>>, <<1, 115, 121>>, <<80>>, <<37>>>>,
  <<<<111, 80, 90, 94>>, <<2>>, <<107, 52, 50, 56, 50>>, <<40, 83>>, <<106>>, <<64, 0>>, <<69, 117>>, <<1, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127>>, <<1>>, <<1, 0>>, <<1, 52>>, <<1, 71>>>>,
  <<<<1, 127>>, <<64, 0>>, <<104, 64>>, <<26, 24>>, <<69>>, <<98>>, <<68, 113>>, <<6, 72>>, <<16, 0, 0, 1, 0>>, <<107, 5>>, <<94, 104>>, <<20, 83>>, <<127, 127, 127, 127, 127>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 0, 0>>, <<107>>, <<57>>, <<1, 103, 65, 43>>, <<79, 33, 96, 16, 116, 4, 83, 47, 125>>, <<79, 44>>, <<1>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 98, 78>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<17, 54>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<3, 36, 32, 53, 96, 122, 33, 32, 94, 59, 21, 95, 60, 80, 93, 106, 74, 89, 29>>, <<1, 57, 49>>, <<38, 94, 113>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<76, 57, 88, 16, 59>>, <<6, 72>>>>,
  <<<<1, 0, 0>>, <<79, 65>>, <<127, 127, 127>>, <<1, 105>>, <<118, 70>>>>,
  <<<<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<39>>>>,
  <<<<99, 126, 34, 117, 124, 74, 110, 124, 57, 42, 48, 52, 79, 48, 36, 115, 101, 114>>, <<1, 36, 76>>, <<106>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<48, 106>>>>,
  <<<<126, 65, 53, 41, 104, 44, 57, 11, 2>>, <<114>>, <<1, 117>>>>,
  <<<<1, 34, 1>>, <<2, 0>>, <<39, 115>>, <<15, 127, 127, 127, 127>>, <<63, 127>>, <<33>>, <<21>>, <<114>>>>,
  <<<<71, 63>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<79>>, <<1, 34, 57>>, <<95>>, <<1, 112, 100, 119, 16, 79, 93, 106, 119, 74>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2>>, <<9, 98>>, <<127, 79, 118>>, <<110, 77>>>>,
  <<<<64, 3>>, <<65>>, <<1, 44>>, <<127>>, <<20>>, <<63, 127>>, <<63, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<64, 0>>, <<1, 18, 84, 12, 1, 83, 36, 102, 90, 117>>, <<1, 0, 1>>, <<1, 33>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<49, 33>>, <<127, 127, 127, 127, 127>>, <<127, 127, 127, 127, 127>>, <<60>>, <<45, 61, 89, 45, 100>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<53>>, <<64, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<79>>, <<6, 72>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<3, 85, 30, 83, 85, 79, 127, 43, 40, 27>>, <<103, 9, 14, 3, 40, 33, 12, 24, 49>>, <<2, 0>>>>,
  <<<<3, 97, 42, 126, 24, 91, 87, 40, 19, 26, 41, 84, 76, 70, 123, 116, 58, 107, 13>>, <<7, 127, 127, 127, 127>>>>,
  <<<<10, 69>>, <<127, 127, 127, 127, 127, 127>>, <<123, 74, 53, 36, 32, 35, 6, 60, 109>>, <<37>>>>,
  <<<<18, 59>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 0>>, <<1, 35, 107>>, <<79>>, <<29, 50>>, <<8, 110, 37, 104, 60, 79, 102, 4, 3>>, <<1, 3>>, <<32, 40>>, <<115, 23, 104, 56, 89, 72, 120, 17, 121, 44, 35, 82, 0, 111, 6, 96, 91, 37>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<97, 1>>, <<15, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0>>, <<113, 43, 23, 20, 114, 39, 4, 14, 33, 55, 70, 16, 32, 40, 18, 66, 114, 97>>>>,
  <<<<42, 8, 55, 30, 41>>, <<18, 113, 92, 26, 114, 53, 104, 85, 101>>, <<40>>, <<68, 119>>>>,
  <<<<84, 123>>>>,
  <<<<109, 51>>, <<2, 0>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2>>, <<64, 0>>, <<1, 94>>, <<4, 119, 33, 106>>, <<11, 120, 0, 29, 104, 15, 81, 87, 74>>>>,
  <<<<86, 106, 37, 49, 64, 3, 16, 76, 102>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 1>>, <<1, 0, 1>>, <<47>>, <<1, 0, 0, 0, 0, 0, 0>>, <<122>>, <<5, 125, 87, 2, 67>>, <<63, 127>>, <<127, 127, 127>>, <<1, 124, 114>>, <<47>>, <<1, 100>>, <<30>>, <<127, 127, 127, 127, 127, 127>>, <<13>>, <<1, 29, 117, 94, 102, 22, 37, 109, 35, 16>>, <<1, 110, 3, 89>>, <<77, 77, 32, 35, 108, 20, 105, 63, 30, 29, 88, 85, 32, 100, 101, 48, 67, 122>>, <<2, 0>>, <<67, 4>>, <<1, 16, 86, 83>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 127>>, <<20, 45>>, <<125, 59, 17, 63, 89, 113, 75, 75, 66>>, <<64, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127>>, <<1, 121>>>>,
  <<<<39>>, <<1, 0, 0>>, <<16, 0, 0, 0, 0>>, <<18>>, <<1, 32, 36, 82>>, <<1, 75>>, <<36, 98>>, <<0>>, <<8, 0, 0, 0, 0>>, <<47>>, <<59>>, <<65, 81>>, <<1, 5>>>>,
  <<<<3, 74, 33, 10, 86, 1, 25, 104, 58, 109>>, <<105>>, <<53, 51>>, <<47>>>>,
  <<<<0>>, <<1, 72, 54, 16>>, <<39>>, <<1, 0, 0, 0>>, <<6, 119, 13>>, <<82, 81, 2>>, <<29>>, <<69, 97, 102>>, <<1, 92, 98, 51>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2>>, <<2, 0>>, <<63, 127>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0>>, <<28>>, <<96, 118>>, <<1, 78, 121>>, <<1, 66>>, <<14, 69>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<52, 106>>, <<3, 62, 47, 64, 29, 127, 45, 30, 16, 20, 111, 33, 41, 28, 33, 80, 20, 75, 10>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<16, 0, 0, 1, 0>>, <<118>>>>,
  <<<<1, 121, 102, 109, 32, 94, 72, 36, 10, 10>>, <<0>>, <<1, 0, 0, 0, 0, 0>>, <<105, 18>>, <<1, 0, 0, 0, 0, 0>>, <<63, 127>>, <<18, 66, 86, 87, 54, 115, 118, 76, 48>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 46, 65, 89>>, <<3, 113, 95, 84, 81, 54, 116, 2, 104, 88, 60, 127, 93, 38, 15, 105, 26, 72, 59>>, <<1>>, <<17, 53, 86, 101>>, <<1, 114>>, <<48, 14, 75>>, <<54, 59, 60, 21>>, <<3, 113>>, <<1, 87>>, <<1, 34, 46>>, <<21>>, <<106, 67, 21, 126>>, <<1, 84, 50, 98, 63, 27, 50, 110, 29, 75>>, <<1, 0>>, <<5, 49>>, <<87, 77>>, <<25>>, <<71, 77>>, <<8>>, <<1, 47>>, <<104, 121, 49>>, <<1, 92, 35>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0>>, <<28, 51, 18, 59, 86, 84, 12, 59, 95>>, <<125>>, <<6, 119, 13>>, <<1, 0, 0, 0>>, <<113, 67>>, <<108, 66, 62, 67, 79, 18, 122, 103, 13>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<48, 29>>, <<1, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 80, 76>>>>,
  <<<<13, 102>>>>,
  <<<<71>>, <<108, 48>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<85, 59>>, <<53, 66, 82, 96, 59, 30, 45, 101, 75>>>>,
  <<<<3, 126, 104, 63, 40, 99, 13, 75, 67, 19>>, <<58, 69, 82, 69, 81, 78, 40, 64, 84>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<25, 100>>, <<1, 0>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<98, 14>>>>,
  <<<<1, 1>>, <<35, 77, 9, 84>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<121, 24>>, <<127, 127, 127>>>>,
  <<<<1, 0, 1>>, <<24>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<20, 92, 59, 34>>, <<1, 100>>, <<13>>>>,
  <<<<57, 126, 76, 103>>, <<7, 127, 127, 127, 127>>, <<23, 53, 118, 71, 13, 31, 31, 7, 9, 102, 95, 91, 79, 118, 33, 124, 66, 90>>, <<22, 119, 9, 86, 28, 115, 93, 93, 81, 52, 85, 102, 117, 124, 15, 66, 109, 43>>, <<49, 18>>, <<62, 52>>, <<63, 127>>, <<33, 35>>>>,
  <<<<34, 110, 53, 45, 87, 7, 95, 40, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<28, 101>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<9, 70, 32, 123, 5, 37, 81, 78, 34>>, <<1, 0, 0, 0, 0, 0>>, <<3, 50, 104, 12, 16, 110, 98, 52, 67, 1>>, <<55>>, <<81, 14>>, <<57, 104, 71>>, <<29, 87>>, <<6, 119, 13>>, <<38, 83, 90>>, <<1, 67, 8, 3, 46, 81, 14, 39, 113, 50>>, <<1>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<95, 11, 0, 26, 113, 20, 73, 116, 70>>, <<30, 97, 88, 73, 95>>>>,
  <<<<35, 104>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 80, 0, 54>>, <<37, 117, 90, 101, 122, 91, 25, 96, 49>>>>,
  <<<<127, 127>>, <<2, 56, 70, 126, 119, 65, 59, 112, 4, 14, 67, 6, 27, 63, 28, 47, 44, 114, 70>>, <<18, 120>>, <<1, 42>>, <<1, 0, 0, 0>>, <<1, 127>>, <<15, 127, 127, 127, 127>>, <<1, 6, 102>>, <<7, 127, 127, 127, 127>>, <<41>>, <<79>>, <<101, 23, 46, 63, 46, 23, 58, 61, 25>>, <<72>>, <<1>>, <<127>>, <<1, 16, 16, 114>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<33, 44>>, <<63, 127>>, <<127, 127>>, <<26, 123>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 66>>, <<80>>, <<1, 74>>, <<11, 57>>, <<58>>, <<1, 28>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<7, 127, 127, 127, 127>>>>,
  <<<<79>>, <<79>>, <<2>>, <<79>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<6, 5>>, <<116>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<79>>, <<3, 81, 22, 15, 114, 95, 33, 40, 35, 100, 105, 60, 36, 67, 44, 28, 59, 87, 126>>, <<118, 53, 104, 117>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 1>>, <<6, 105, 111>>, <<24>>, <<6, 9>>, <<2, 90, 14, 80, 113, 5, 111, 39, 85, 110, 116, 5, 47, 117, 63, 26, 28, 46, 58>>, <<22, 49, 83, 119, 107, 36, 35, 5, 86>>, <<62>>>>,
  <<<<1, 95>>, <<1, 0, 0, 0>>, <<1, 127>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<97, 75>>, <<59, 16, 39, 117, 121, 88, 93, 63, 47, 9, 51, 1, 94, 32, 18, 20, 39, 119>>>>,
  <<<<127, 127, 127, 127, 127, 127>>, <<63>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<62, 25>>, <<23, 25>>, <<1, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 89>>, <<1, 36, 17, 119>>, <<86, 113>>, <<79>>, <<24>>, <<45>>, <<1, 6>>, <<1, 72>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<65>>, <<68, 76>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<59, 39, 81, 120, 65, 90, 74, 105, 75, 54, 0, 10, 116, 124, 62, 64, 52, 5>>, <<2, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<45, 28, 67>>, <<1, 0, 0>>, <<16, 0, 0, 0, 0>>, <<19>>>>,
  <<<<74>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2, 30, 53, 3, 82, 53, 123, 98, 41, 66>>, <<118>>, <<1, 27>>, <<1, 127>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<110, 69, 75>>, <<16, 0, 0, 0, 0>>, <<30>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<11, 121>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127>>, <<83, 12>>, <<80>>, <<59>>, <<127, 127, 127, 127>>, <<16, 0, 0, 0, 0>>, <<20>>, <<74, 92>>, <<3, 92, 14, 32, 35, 68, 119, 35, 124, 24, 125, 52, 97, 8, 80, 49, 59, 72, 61>>, <<7, 127, 127, 127, 127>>, <<77, 64>>, <<54, 119>>, <<127, 127, 127, 127>>, <<90, 92>>, <<33>>, <<101, 76, 0, 42, 94>>, <<79>>, <<1, 1, 52>>, <<13>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<83, 104>>, <<124, 3, 124, 127, 42, 91, 77, 68, 72>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<1, 78, 40, 9, 23, 69, 56, 30, 72, 116>>>>,
  <<<<16, 0, 0, 1, 0>>, <<64, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1, 74, 36>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 126, 72, 124, 55, 0, 62, 64, 68, 101, 54, 117, 55, 124, 31, 28, 31, 79, 66>>>>,
  <<<<94, 35>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 15, 38>>>>,
  <<<<127, 127, 127, 127>>, <<122, 7>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<16, 0, 0, 1, 0>>, <<47>>, <<10, 21, 97, 94>>, <<9, 98>>, <<1, 69, 14, 31, 71, 29, 54, 9, 59, 43, 21, 10, 52, 38, 98, 63, 61, 15, 44>>>>,
  <<<<24, 98>>, <<3, 109, 69, 127, 77, 26, 95, 119, 67, 104, 106, 17, 99, 99, 119, 32, 36, 88, 96>>, <<76, 80>>, <<1, 1>>, <<3>>, <<15>>, <<127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<61>>, <<1, 1>>, <<127, 127, 127, 127>>, <<94, 76, 116, 20, 61, 123, 102, 74, 91>>, <<42, 59>>>>,
  <<<<100, 111, 84, 89, 106, 43, 28, 64, 119>>, <<20, 59, 40, 21, 31>>, <<6, 77, 103, 26, 13, 4, 98, 61, 6, 28, 24, 100, 61, 80, 60, 39, 85, 74>>, <<3>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<48, 59, 61>>, <<125>>, <<7, 127, 127, 127, 127>>, <<2, 66, 79, 15, 99, 74, 75, 50, 20, 27, 46, 54, 110, 44, 41, 123, 18, 73, 3>>, <<127>>, <<6, 119, 13>>, <<127, 127, 127, 127, 127>>, <<37>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1, 92, 96, 41>>, <<127, 127>>, <<1, 63>>, <<1, 28>>, <<31>>, <<108, 98>>, <<96, 24, 4, 105, 113>>, <<127>>, <<98, 90, 42, 72>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 121>>, <<1, 0, 0, 0, 0>>, <<1, 14, 26, 115, 80, 26, 63, 93, 21, 122>>, <<1, 95, 114>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<10>>>>,
  <<<<24, 96>>, <<1, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 110, 103>>, <<1, 122>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 97>>>>,
  <<<<3, 125, 23, 0, 96, 31, 21, 26, 69, 93, 6, 0, 97, 125, 110, 24, 28, 115, 28>>, <<1, 0, 1>>>>,
  <<<<98, 88, 104, 103, 70>>, <<6, 119, 13>>, <<101, 88, 35>>, <<113, 10, 5, 7, 17, 77, 35, 77, 52>>, <<7>>, <<40>>, <<27>>, <<35, 0>>, <<69>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1, 7, 9>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<94, 61>>>>,
  <<<<64, 0>>>>,
  <<<<96>>, <<16, 0, 0, 1, 0>>, <<1, 39, 97>>, <<112>>, <<1, 51, 44, 108, 4, 74, 112, 100, 113, 57>>, <<1, 99>>, <<1, 0, 0>>, <<15, 95>>, <<1, 77, 7, 58, 39, 61, 76, 105, 64, 46, 25, 54, 99, 45, 125, 47, 65, 64, 15>>, <<39, 113, 31>>, <<100, 117>>, <<43, 127, 60, 122>>, <<50, 117, 69, 124, 19>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0>>, <<1>>, <<2>>, <<86>>, <<1, 28, 117, 117>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<12, 37, 10, 16, 16>>, <<62, 34>>, <<1, 0, 1>>, <<44, 115>>, <<80>>, <<2, 113, 98, 32, 7, 80, 63, 43, 112, 90>>, <<1, 26, 64, 39, 77, 13, 98, 75, 39, 94, 14, 10, 61, 20, 118, 26, 102, 24, 7>>, <<1, 4>>, <<2>>, <<40>>>>,
  <<<<127, 127, 127>>, <<7, 85>>, <<14, 103, 56>>, <<42, 7>>, <<66, 68, 22, 14, 14, 86, 115, 105, 101>>, <<1, 89, 16, 7>>, <<1, 54, 75>>, <<79>>, <<1, 42>>, <<64, 0>>, <<3, 31, 16, 48, 60, 62, 72, 33, 93, 13, 123, 66, 30, 2, 90, 75, 73, 36, 115>>, <<47>>, <<123>>, <<29>>, <<90, 86>>, <<112>>, <<121, 30>>, <<78, 89, 18, 42>>, <<65>>, <<71, 101>>, <<63, 127>>, <<55, 43, 116, 110, 26, 25, 91, 56, 65>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<47>>, <<109, 95>>, <<89>>, <<79>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<67, 82, 110, 34, 97, 89, 74, 9, 47>>, <<1, 0, 0, 0>>, <<16, 0, 0, 1, 0>>, <<6, 18>>, <<92, 121, 1, 87>>, <<127>>, <<8, 0, 0, 0, 0>>, <<111, 107>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<110>>, <<98, 34, 102, 33, 2, 87, 81, 110, 38>>, <<113>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<96, 56, 61, 88>>, <<127>>, <<47>>, <<58>>, <<120, 54>>, <<42, 127>>, <<83, 19>>, <<8, 84>>, <<2, 75, 18, 29, 122, 68, 17, 35, 61, 26, 35, 72, 42, 121, 69, 114, 9, 52, 102>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 46, 82>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<79, 110, 11, 24, 51>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<35>>, <<127>>, <<1, 105>>>>,
  <<<<3, 13, 70, 62, 37, 28, 99, 37, 84, 15>>, <<79>>, <<1, 0, 0, 0, 0, 0>>, <<12, 53, 53, 58>>, <<103, 12>>, <<79>>, <<24>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<7, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<41, 21, 49>>, <<1, 95, 29>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1, 40>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127, 127>>, <<1, 0, 0, 0, 0, 0>>, <<1, 1>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<47, 80>>, <<47>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<6, 72>>, <<35, 70>>, <<67>>>>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2>>>>,
  <<<<26, 90>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 68, 60, 46>>, <<1, 69>>, <<1, 1>>, <<6, 72>>, <<97>>, <<62>>>>,
  <<<<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<127>>>>,
  <<<<31, 68, 40, 79, 45>>, <<57>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 107, 37, 67, 57, 30, 89, 94, 91, 58>>, <<1, 70, 46, 89, 19, 105, 87, 108, 99, 4>>, <<63, 127>>, <<2, 0>>, <<122>>, <<1, 24, 71, 119, 3, 58, 44, 126, 57, 121>>, <<49, 93>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<63, 127>>, <<1, 0, 0, 0>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<69>>, <<15, 127, 127, 127, 127>>, <<127, 127>>, <<1>>, <<60, 104, 64>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<56>>, <<26>>, <<74, 121, 11, 13, 118, 50, 124, 110, 74>>, <<2, 97, 113, 110, 64, 116, 112, 64, 12, 52, 118, 79, 99, 102, 31, 38, 29, 94, 49>>, <<62, 15, 91, 74, 111>>, <<1, 86>>, <<86, 102>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<6>>, <<20, 56, 68, 106>>, <<127, 127, 127, 127>>, <<89>>, <<127, 127, 127, 127>>, <<49>>, <<1, 0, 0, 0, 0, 0>>, <<49, 49>>, <<1, 0, 0, 0>>, <<13, 32, 81, 70, 45>>, <<40>>, <<7, 127, 127, 127, 127>>, <<7, 127, 127, 127, 127>>, <<50, 87, 86, 50, 120, 44, 5, 99, 37>>, <<39>>>>,
  <<<<6, 119, 13>>, <<29, 97>>, <<95>>, <<127>>, <<29, 33>>>>,
  <<<<124, 48, 117, 45, 90, 63, 1, 95, 26, 42, 118, 5, 67, 124, 36, 8, 56, 75>>, <<20, 28, 38, 110>>, <<3>>, <<20, 2, 74, 31>>, <<1, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 41>>, <<114>>>>,
  <<<<1, 103, 79, 45>>>>,
  <<<<48, 42>>, <<87, 106>>, <<1, 0, 0, 0, 0, 0, 0>>, <<1, 12>>, <<1, 0, 0, 0, 0>>, <<20, 15>>, <<62, 3>>, <<105, 31>>>>,
  <<<<40>>>>,
  <<<<26>>, <<1, 109, 56>>, <<118, 83, 102, 5, 70>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>,
  <<<<127, 127, 127, 127, 127>>, <<63, 127>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<118, 44>>>>,
  <<<<63, 127>>, <<47>>, <<37>>>>,
  <<<<86, 39, 107, 81, 38, 88, 23, 92, 77>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<49, 44, 67, 64, 15>>, <<73>>, <<1, 98, 108, 95, 57, 76, 76, 106, 105, 11, 5, 65, 33, 89, 16, 96, 84, 67, 37>>, <<16, 0, 0, 0, 0>>, <<1, 86, 58>>>>,
  <<<<117, 75>>, <<68>>, <<62, 85>>, <<79>>>>,
  <<<<11, 17>>, <<1, 0, 0, 0, 0, 0>>, <<114, 65, 123, 12, 38, 61, 88, 31, 115, 50, 75, 118, 82, 50, 110, 33, 105, 8>>, <<80>>, <<46, 68>>, <<42>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 83, 51>>>>,
  <<<<116, 6, 11, 47>>, <<1, 54>>, <<125>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 45, 110>>, <<16, 0, 0, 0, 0>>, <<9, 4>>, <<1, 90, 84, 101, 46, 109, 15, 113, 119, 7, 0, 69, 57, 38, 107, 0, 54, 6, 110>>, <<127, 127, 127, 127, 127, 127, 127, 127>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<85, 18>>, <<1, 81>>, <<1, 115, 12, 17, 42, 40, 57, 38, 3, 105>>>>,
  <<<<1, 39>>, <<1, 113, 49>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<127, 127, 127>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<77, 70>>, <<101, 14>>, <<60, 90>>>>,
  <<<<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<21, 81>>, <<85, 127, 9, 102>>, <<1, 51, 43>>, <<127, 127, 127>>, <<47, 75>>, <<40, 11>>, <<36, 26, 23>>>>,
  <<<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<37, 123, 14, 61, 112>>, <<1, 41, 54, 7, 99, 96, 109, 49, 61, 63>>, <<16, 62>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<82, 18, 0, 15, 50, 12, 53, 125, 66>>, <<6, 72>>, <<127>>>>,
  <<<<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<112, 3, 18>>, <<2, 119, 86, 81, 120, 91, 41, 30, 46, 80, 69, 44, 76, 19, 34, 55, 8, 64, 55>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>, <<77, 48, 62, 82, 49>>, <<127, 127>>, <<63, 127>>, <<1, 21>>, <<1, 75, 16>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<122, 106, 19, 24, 27, 12, 127, 35, 20>>, <<1, 108, 118, 31, 17, 85, 23, 22, 14, 104>>>>,
  <<<<16, 18>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 127>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1, 39, 1>>>>,
  <<<<40>>, <<1, 127>>, <<28, 73>>, <<48>>, <<127, 127>>, <<1, 110>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 1>>, <<1, 34>>, <<127, 127, 127, 127>>, <<118, 100>>, <<47>>, <<1, 0, 0, 0>>, <<62>>, <<64>>, <<2>>, <<97, 96, 13, 121, 37, 79, 12, 118, 73>>, <<0>>, <<35, 27>>, <<77, 55>>, <<15, 127, 127, 127, 127>>, <<11, 39>>, <<1, 102, 16, 121, 56, 33, 77, 98, 57, 59>>, <<15, 48, 33, 98, 126, 25, 67, 115, 37>>, <<2>>, <<58, 3, 127, 4, 22, 126, 117, 123, 28>>, <<7, 127, 127, 127, 127>>, <<1, 32>>, <<43, 110>>, <<16, 0, 0, 1, 0>>>>,
  <<<<17, 110>>, <<79>>>>,
  <<<<1, 107>>, <<91, 58, 117>>, <<1, 127>>, <<63, 127>>, <<22, 50>>, <<4>>, <<40>>, <<8, 0, 0, 0, 0>>>> >>
MacroPassed == <<
  <<<<1>>, <<2>>, <<0>>>>,
  <<<<1>>, <<2>>, <<1>>>>,
  <<<<1>>, <<2>>, <<2>>>>,
  <<<<1>>, <<2>>, <<39>>>>,
  <<<<1>>, <<2>>, <<40>>>>,
  <<<<1>>, <<2>>, <<47>>>>,
  <<<<1>>, <<2>>, <<79>>>>,
  <<<<1>>, <<2>>, <<80>>>>,
  <<<<1>>, <<2>>, <<127>>>>,
  <<<<1>>, <<2>>, <<1, 0>>>>,
  <<<<1>>, <<2>>, <<1, 1>>>>,
  <<<<1>>, <<2>>, <<1, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0>>>>,
  <<<<1>>, <<2>>, <<6, 72>>>>,
  <<<<1>>, <<2>>, <<63, 127>>>>,
  <<<<1>>, <<2>>, <<64, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 1>>>>,
  <<<<1>>, <<2>>, <<6, 119, 13>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<7, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<8, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<15, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<16, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<16, 0, 0, 1, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>,
  <<<<1>>, <<2>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<1>>, <<2>>, <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<2>>, <<3, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<0>>, <<0>>>>,
  <<<<1>>, <<5>>, <<48, 68, 72, 76, 6, 99, 106, 107, 73>>>>,
  <<<<1>>, <<10>>, <<84, 5>>>>,
  <<<<1>>, <<13>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<2>>, <<28>>, <<127, 127>>>>,
  <<<<2>>, <<25>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<<<1>>, <<32>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<2>>, <<10>>, <<1, 89, 60>>>>,
  <<<<2>>, <<25>>, <<2, 0>>>>,
  <<<<2>>, <<17>>, <<67, 126>>>>,
  <<<<0>>, <<29>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 127>>>>,
  <<<<0>>, <<4>>, <<4, 4>>>>,
  <<<<0>>, <<0>>, <<1, 87>>>>,
  <<<<2>>, <<10>>, <<64, 0>>>>,
  <<<<1>>, <<15>>, <<1, 94, 58>>>>,
  <<<<1>>, <<7>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<<<0>>, <<14>>, <<6, 72>>>>,
  <<<<2>>, <<15>>, <<57, 12, 103>>>> >>
MacroNumbers == <<
  <<0, 0, 0, 0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 1>>,
  <<0, 0, 0, 0, 0, 0, 0, 2>>,
  <<0, 0, 0, 0, 0, 0, 0, 4>>,
  <<0, 0, 0, 0, 0, 0, 0, 5>>,
  <<0, 0, 0, 0, 0, 0, 0, 6>>,
  <<0, 0, 0, 0, 0, 0, 0, 8>>,
  <<0, 0, 0, 0, 0, 0, 0, 11>>,
  <<0, 0, 0, 0, 0, 0, 0, 17>>,
  <<0, 0, 0, 0, 0, 0, 0, 44>>,
  <<0, 0, 0, 0, 0, 0, 0, 59>>,
  <<0, 0, 0, 0, 0, 0, 0, 100>>,
  <<0, 0, 0, 0, 0, 0, 0, 110>>,
  <<0, 0, 0, 0, 0, 0, 0, 111>>,
  <<0, 0, 0, 0, 0, 0, 0, 127>>,
  <<0, 0, 0, 0, 0, 0, 0, 128>>,
  <<0, 0, 0, 0, 0, 0, 0, 129>>,
  <<0, 0, 0, 0, 0, 0, 0, 201>>,
  <<0, 0, 0, 0, 0, 0, 0, 255>>,
  <<0, 0, 0, 0, 0, 0, 1, 0>>,
  <<0, 0, 0, 0, 0, 0, 1, 1>>,
  <<0, 0, 0, 0, 0, 0, 1, 9>>,
  <<0, 0, 0, 0, 0, 0, 1, 73>>,
  <<0, 0, 0, 0, 0, 0, 1, 255>>,
  <<0, 0, 0, 0, 0, 0, 2, 0>>,
  <<0, 0, 0, 0, 0, 0, 2, 1>>,
  <<0, 0, 0, 0, 0, 0, 2, 135>>,
  <<0, 0, 0, 0, 0, 0, 3, 255>>,
  <<0, 0, 0, 0, 0, 0, 4, 0>>,
  <<0, 0, 0, 0, 0, 0, 4, 1>>,
  <<0, 0, 0, 0, 0, 0, 4, 54>>,
  <<0, 0, 0, 0, 0, 0, 5, 235>>,
  <<0, 0, 0, 0, 0, 0, 7, 53>>,
  <<0, 0, 0, 0, 0, 0, 7, 255>>,
  <<0, 0, 0, 0, 0, 0, 8, 0>>,
  <<0, 0, 0, 0, 0, 0, 8, 1>>,
  <<0, 0, 0, 0, 0, 0, 11, 99>>,
  <<0, 0, 0, 0, 0, 0, 12, 39>>,
  <<0, 0, 0, 0, 0, 0, 15, 255>>,
  <<0, 0, 0, 0, 0, 0, 16, 0>>,
  <<0, 0, 0, 0, 0, 0, 16, 1>>,
  <<0, 0, 0, 0, 0, 0, 22, 130>>,
  <<0, 0, 0, 0, 0, 0, 31, 255>>,
  <<0, 0, 0, 0, 0, 0, 32, 0>>,
  <<0, 0, 0, 0, 0, 0, 32, 1>>,
  <<0, 0, 0, 0, 0, 0, 49, 73>>,
  <<0, 0, 0, 0, 0, 0, 63, 255>>,
  <<0, 0, 0, 0, 0, 0, 64, 0>>,
  <<0, 0, 0, 0, 0, 0, 64, 1>>,
  <<0, 0, 0, 0, 0, 0, 77, 175>>,
  <<0, 0, 0, 0, 0, 0, 91, 96>>,
  <<0, 0, 0, 0, 0, 0, 93, 254>>,
  <<0, 0, 0, 0, 0, 0, 127, 255>>,
  <<0, 0, 0, 0, 0, 0, 128, 0>>,
  <<0, 0, 0, 0, 0, 0, 128, 1>>,
  <<0, 0, 0, 0, 0, 0, 204, 186>>,
  <<0, 0, 0, 0, 0, 0, 255, 0>>,
  <<0, 0, 0, 0, 0, 0, 255, 255>>,
  <<0, 0, 0, 0, 0, 1, 0, 0>>,
  <<0, 0, 0, 0, 0, 1, 0, 1>>,
  <<0, 0, 0, 0, 0, 1, 122, 121>>,
  <<0, 0, 0, 0, 0, 1, 137, 189>>,
  <<0, 0, 0, 0, 0, 1, 255, 255>>,
  <<0, 0, 0, 0, 0, 2, 0, 0>>,
  <<0, 0, 0, 0, 0, 2, 0, 1>>,
  <<0, 0, 0, 0, 0, 2, 204, 58>>,
  <<0, 0, 0, 0, 0, 3, 237, 115>>,
  <<0, 0, 0, 0, 0, 3, 245, 128>>,
  <<0, 0, 0, 0, 0, 3, 255, 255>>,
  <<0, 0, 0, 0, 0, 4, 0, 0>>,
  <<0, 0, 0, 0, 0, 4, 0, 1>>,
  <<0, 0, 0, 0, 0, 5, 120, 253>>,
  <<0, 0, 0, 0, 0, 7, 255, 255>>,
  <<0, 0, 0, 0, 0, 8, 0, 0>>,
  <<0, 0, 0, 0, 0, 8, 0, 1>>,
  <<0, 0, 0, 0, 0, 9, 152, 190>>,
  <<0, 0, 0, 0, 0, 9, 175, 89>>,
  <<0, 0, 0, 0, 0, 10, 115, 96>>,
  <<0, 0, 0, 0, 0, 10, 185, 156>>,
  <<0, 0, 0, 0, 0, 15, 255, 255>>,
  <<0, 0, 0, 0, 0, 16, 0, 0>>,
  <<0, 0, 0, 0, 0, 16, 0, 1>>,
  <<0, 0, 0, 0, 0, 16, 217, 118>>,
  <<0, 0, 0, 0, 0, 30, 249, 38>>,
  <<0, 0, 0, 0, 0, 31, 255, 255>>,
  <<0, 0, 0, 0, 0, 32, 0, 0>>,
  <<0, 0, 0, 0, 0, 32, 0, 1>>,
  <<0, 0, 0, 0, 0, 53, 52, 98>>,
  <<0, 0, 0, 0, 0, 63, 255, 255>>,
  <<0, 0, 0, 0, 0, 64, 0, 0>>,
  <<0, 0, 0, 0, 0, 64, 0, 1>>,
  <<0, 0, 0, 0, 0, 74, 114, 140>>,
  <<0, 0, 0, 0, 0, 127, 255, 255>>,
  <<0, 0, 0, 0, 0, 128, 0, 0>>,
  <<0, 0, 0, 0, 0, 128, 0, 1>>,
  <<0, 0, 0, 0, 0, 148, 171, 6>>,
  <<0, 0, 0, 0, 0, 194, 110, 162>>,
  <<0, 0, 0, 0, 0, 223, 77, 103>>,
  <<0, 0, 0, 0, 0, 251, 146, 101>>,
  <<0, 0, 0, 0, 0, 255, 0, 0>>,
  <<0, 0, 0, 0, 0, 255, 255, 255>>,
  <<0, 0, 0, 0, 1, 0, 0, 0>>,
  <<0, 0, 0, 0, 1, 0, 0, 1>>,
  <<0, 0, 0, 0, 1, 255, 255, 255>>,
  <<0, 0, 0, 0, 2, 0, 0, 0>>,
  <<0, 0, 0, 0, 2, 0, 0, 1>>,
  <<0, 0, 0, 0, 2, 93, 141, 31>>,
  <<0, 0, 0, 0, 3, 123, 158, 137>>,
  <<0, 0, 0, 0, 3, 224, 163, 186>>,
  <<0, 0, 0, 0, 3, 248, 163, 244>>,
  <<0, 0, 0, 0, 3, 255, 255, 255>>,
  <<0, 0, 0, 0, 4, 0, 0, 0>>,
  <<0, 0, 0, 0, 4, 0, 0, 1>>,
  <<0, 0, 0, 0, 4, 244, 93, 127>>,
  <<0, 0, 0, 0, 7, 210, 47, 93>>,
  <<0, 0, 0, 0, 7, 255, 255, 255>>,
  <<0, 0, 0, 0, 8, 0, 0, 0>>,
  <<0, 0, 0, 0, 8, 0, 0, 1>>,
  <<0, 0, 0, 0, 8, 194, 237, 56>>,
  <<0, 0, 0, 0, 11, 174, 46, 191>>,
  <<0, 0, 0, 0, 15, 255, 255, 255>>,
  <<0, 0, 0, 0, 16, 0, 0, 0>>,
  <<0, 0, 0, 0, 16, 0, 0, 1>>,
  <<0, 0, 0, 0, 16, 94, 215, 217>>,
  <<0, 0, 0, 0, 18, 101, 157, 185>>,
  <<0, 0, 0, 0, 31, 255, 255, 255>>,
  <<0, 0, 0, 0, 32, 0, 0, 0>>,
  <<0, 0, 0, 0, 32, 0, 0, 1>>,
  <<0, 0, 0, 0, 39, 154, 208, 164>>,
  <<0, 0, 0, 0, 56, 191, 37, 195>>,
  <<0, 0, 0, 0, 63, 255, 255, 255>>,
  <<0, 0, 0, 0, 64, 0, 0, 0>>,
  <<0, 0, 0, 0, 64, 0, 0, 1>>,
  <<0, 0, 0, 0, 91, 134, 185, 99>>,
  <<0, 0, 0, 0, 127, 255, 255, 255>>,
  <<0, 0, 0, 0, 128, 0, 0, 0>>,
  <<0, 0, 0, 0, 128, 0, 0, 1>>,
  <<0, 0, 0, 0, 135, 187, 206, 82>>,
  <<0, 0, 0, 0, 220, 33, 238, 226>>,
  <<0, 0, 0, 0, 250, 107, 98, 210>>,
  <<0, 0, 0, 0, 255, 0, 0, 0>>,
  <<0, 0, 0, 0, 255, 255, 255, 255>>,
  <<0, 0, 0, 1, 0, 0, 0, 0>>,
  <<0, 0, 0, 1, 0, 0, 0, 1>>,
  <<0, 0, 0, 1, 108, 219, 178, 180>>,
  <<0, 0, 0, 1, 127, 178, 204, 164>>,
  <<0, 0, 0, 1, 137, 93, 21, 240>>,
  <<0, 0, 0, 1, 255, 255, 255, 255>>,
  <<0, 0, 0, 2, 0, 0, 0, 0>>,
  <<0, 0, 0, 2, 0, 0, 0, 1>>,
  <<0, 0, 0, 3, 161, 102, 123, 96>>,
  <<0, 0, 0, 3, 255, 255, 255, 255>>,
  <<0, 0, 0, 4, 0, 0, 0, 0>>,
  <<0, 0, 0, 4, 0, 0, 0, 1>>,
  <<0, 0, 0, 5, 163, 160, 125, 50>>,
  <<0, 0, 0, 7, 173, 173, 193, 208>>,
  <<0, 0, 0, 7, 255, 255, 255, 255>>,
  <<0, 0, 0, 8, 0, 0, 0, 0>>,
  <<0, 0, 0, 8, 0, 0, 0, 1>>,
  <<0, 0, 0, 9, 82, 32, 135, 215>>,
  <<0, 0, 0, 12, 190, 62, 226, 7>>,
  <<0, 0, 0, 14, 45, 178, 221, 178>>,
  <<0, 0, 0, 15, 0, 42, 147, 43>>,
  <<0, 0, 0, 15, 255, 255, 255, 255>>,
  <<0, 0, 0, 16, 0, 0, 0, 0>>,
  <<0, 0, 0, 16, 0, 0, 0, 1>>,
  <<0, 0, 0, 31, 242, 32, 84, 66>>,
  <<0, 0, 0, 31, 255, 255, 255, 255>>,
  <<0, 0, 0, 32, 0, 0, 0, 0>>,
  <<0, 0, 0, 32, 0, 0, 0, 1>>,
  <<0, 0, 0, 63, 255, 255, 255, 255>>,
  <<0, 0, 0, 64, 0, 0, 0, 0>>,
  <<0, 0, 0, 64, 0, 0, 0, 1>>,
  <<0, 0, 0, 92, 155, 50, 46, 99>>,
  <<0, 0, 0, 96, 195, 177, 168, 203>>,
  <<0, 0, 0, 123, 172, 192, 231, 22>>,
  <<0, 0, 0, 127, 255, 255, 255, 255>>,
  <<0, 0, 0, 128, 0, 0, 0, 0>>,
  <<0, 0, 0, 128, 0, 0, 0, 1>>,
  <<0, 0, 0, 209, 163, 48, 241, 250>>,
  <<0, 0, 0, 239, 36, 186, 238, 251>>,
  <<0, 0, 0, 255, 0, 0, 0, 0>>,
  <<0, 0, 0, 255, 255, 255, 255, 255>>,
  <<0, 0, 1, 0, 0, 0, 0, 0>>,
  <<0, 0, 1, 0, 0, 0, 0, 1>>,
  <<0, 0, 1, 69, 46, 168, 205, 67>>,
  <<0, 0, 1, 255, 255, 255, 255, 255>>,
  <<0, 0, 2, 0, 0, 0, 0, 0>>,
  <<0, 0, 2, 0, 0, 0, 0, 1>>,
  <<0, 0, 3, 119, 155, 119, 27, 55>>,
  <<0, 0, 3, 255, 255, 255, 255, 255>>,
  <<0, 0, 4, 0, 0, 0, 0, 0>>,
  <<0, 0, 4, 0, 0, 0, 0, 1>>,
  <<0, 0, 4, 39, 63, 136, 60, 187>>,
  <<0, 0, 4, 74, 134, 230, 118, 5>>,
  <<0, 0, 5, 44, 197, 22, 123, 94>>,
  <<0, 0, 6, 166, 92, 162, 64, 27>>,
  <<0, 0, 7, 255, 255, 255, 255, 255>>,
  <<0, 0, 8, 0, 0, 0, 0, 0>>,
  <<0, 0, 8, 0, 0, 0, 0, 1>>,
  <<0, 0, 14, 34, 91, 146, 201, 86>>,
  <<0, 0, 15, 255, 255, 255, 255, 255>>,
  <<0, 0, 16, 0, 0, 0, 0, 0>>,
  <<0, 0, 16, 0, 0, 0, 0, 1>>,
  <<0, 0, 18, 190, 51, 195, 50, 41>>,
  <<0, 0, 31, 255, 255, 255, 255, 255>>,
  <<0, 0, 32, 0, 0, 0, 0, 0>>,
  <<0, 0, 32, 0, 0, 0, 0, 1>>,
  <<0, 0, 32, 31, 119, 97, 32, 168>>,
  <<0, 0, 42, 63, 16, 63, 199, 178>>,
  <<0, 0, 61, 6, 17, 115, 139, 208>>,
  <<0, 0, 63, 255, 255, 255, 255, 255>>,
  <<0, 0, 64, 0, 0, 0, 0, 0>>,
  <<0, 0, 64, 0, 0, 0, 0, 1>>,
  <<0, 0, 80, 141, 74, 140, 250, 67>>,
  <<0, 0, 88, 58, 134, 208, 126, 107>>,
  <<0, 0, 90, 83, 205, 87, 77, 1>>,
  <<0, 0, 117, 213, 187, 11, 25, 103>>,
  <<0, 0, 127, 255, 255, 255, 255, 255>>,
  <<0, 0, 128, 0, 0, 0, 0, 0>>,
  <<0, 0, 128, 0, 0, 0, 0, 1>>,
  <<0, 0, 255, 0, 0, 0, 0, 0>>,
  <<0, 0, 255, 255, 255, 255, 255, 255>>,
  <<0, 1, 0, 0, 0, 0, 0, 0>>,
  <<0, 1, 0, 0, 0, 0, 0, 1>>,
  <<0, 1, 147, 106, 15, 208, 70, 28>>,
  <<0, 1, 255, 255, 255, 255, 255, 255>>,
  <<0, 2, 0, 0, 0, 0, 0, 0>>,
  <<0, 2, 0, 0, 0, 0, 0, 1>>,
  <<0, 3, 105, 57, 176, 105, 46, 28>>,
  <<0, 3, 123, 24, 242, 13, 120, 207>>,
  <<0, 3, 255, 255, 255, 255, 255, 255>>,
  <<0, 4, 0, 0, 0, 0, 0, 0>>,
  <<0, 4, 0, 0, 0, 0, 0, 1>>,
  <<0, 5, 92, 57, 187, 114, 119, 71>>,
  <<0, 6, 198, 28, 27, 228, 39, 220>>,
  <<0, 7, 92, 228, 106, 177, 108, 187>>,
  <<0, 7, 238, 107, 250, 134, 20, 204>>,
  <<0, 7, 255, 255, 255, 255, 255, 255>>,
  <<0, 8, 0, 0, 0, 0, 0, 0>>,
  <<0, 8, 0, 0, 0, 0, 0, 1>>,
  <<0, 11, 196, 178, 21, 237, 228, 88>>,
  <<0, 13, 206, 104, 159, 143, 179, 157>>,
  <<0, 13, 246, 234, 255, 248, 177, 163>>,
  <<0, 14, 60, 43, 87, 174, 213, 235>>,
  <<0, 15, 255, 255, 255, 255, 255, 255>>,
  <<0, 16, 0, 0, 0, 0, 0, 0>>,
  <<0, 16, 0, 0, 0, 0, 0, 1>>,
  <<0, 26, 1, 60, 47, 126, 233, 187>>,
  <<0, 31, 255, 255, 255, 255, 255, 255>>,
  <<0, 32, 0, 0, 0, 0, 0, 0>>,
  <<0, 32, 0, 0, 0, 0, 0, 1>>,
  <<0, 41, 91, 145, 227, 247, 173, 129>>,
  <<0, 63, 255, 255, 255, 255, 255, 255>>,
  <<0, 64, 0, 0, 0, 0, 0, 0>>,
  <<0, 64, 0, 0, 0, 0, 0, 1>>,
  <<0, 92, 163, 9, 19, 77, 248, 88>>,
  <<0, 102, 84, 11, 124, 204, 175, 255>>,
  <<0, 108, 193, 58, 92, 255, 162, 248>>,
  <<0, 127, 255, 255, 255, 255, 255, 255>>,
  <<0, 128, 0, 0, 0, 0, 0, 0>>,
  <<0, 128, 0, 0, 0, 0, 0, 1>>,
  <<0, 168, 97, 69, 255, 82, 150, 22>>,
  <<0, 255, 0, 0, 0, 0, 0, 0>>,
  <<0, 255, 255, 255, 255, 255, 255, 255>>,
  <<1, 0, 0, 0, 0, 0, 0, 0>>,
  <<1, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 255, 255, 255, 255, 255, 255, 255>>,
  <<2, 0, 0, 0, 0, 0, 0, 0>>,
  <<2, 0, 0, 0, 0, 0, 0, 1>>,
  <<2, 27, 97, 37, 96, 147, 222, 155>>,
  <<2, 58, 18, 6, 9, 211, 48, 72>>,
  <<3, 208, 52, 194, 228, 128, 215, 162>>,
  <<3, 233, 14, 191, 246, 84, 70, 226>>,
  <<3, 255, 255, 255, 255, 255, 255, 255>>,
  <<4, 0, 0, 0, 0, 0, 0, 0>>,
  <<4, 0, 0, 0, 0, 0, 0, 1>>,
  <<7, 255, 255, 255, 255, 255, 255, 255>>,
  <<8, 0, 0, 0, 0, 0, 0, 0>>,
  <<8, 0, 0, 0, 0, 0, 0, 1>>,
  <<8, 187, 229, 232, 80, 143, 125, 97>>,
  <<10, 85, 248, 125, 225, 50, 164, 211>>,
  <<15, 255, 255, 255, 255, 255, 255, 255>>,
  <<16, 0, 0, 0, 0, 0, 0, 0>>,
  <<16, 0, 0, 0, 0, 0, 0, 1>>,
  <<16, 174, 190, 30, 226, 235, 39, 244>>,
  <<17, 14, 137, 228, 134, 126, 131, 201>>,
  <<31, 255, 255, 255, 255, 255, 255, 255>>,
  <<32, 0, 0, 0, 0, 0, 0, 0>>,
  <<32, 0, 0, 0, 0, 0, 0, 1>>,
  <<47, 60, 48, 34, 48, 150, 180, 112>>,
  <<59, 207, 157, 103, 72, 224, 237, 34>>,
  <<63, 255, 255, 255, 255, 255, 255, 255>>,
  <<64, 0, 0, 0, 0, 0, 0, 0>>,
  <<64, 0, 0, 0, 0, 0, 0, 1>>,
  <<90, 224, 172, 173, 66, 123, 151, 250>>,
  <<103, 244, 70, 209, 212, 132, 135, 128>>,
  <<110, 187, 150, 91, 242, 175, 251, 39>>,
  <<127, 255, 255, 255, 255, 255, 255, 255>>,
  <<128, 0, 0, 0, 0, 0, 0, 0>>,
  <<128, 0, 0, 0, 0, 0, 0, 1>>,
  <<168, 39, 116, 19, 221, 49, 222, 14>>,
  <<255, 0, 0, 0, 0, 0, 0, 0>>,
  <<255, 255, 255, 255, 255, 255, 255, 255>>,
  <<0, 0, 0, 0, 0, 0, 0, 255>>,
  <<0, 0, 0, 0, 0, 0, 0, 128>>,
  <<0, 0, 0, 0, 0, 15, 66, 64>>,
  <<0, 0, 0, 0, 0, 0, 0, 128>>,
  <<0, 0, 0, 0, 0, 0, 0, 255>>,
  <<0, 0, 0, 0, 0, 0, 0, 7>>,
  <<0, 0, 0, 0, 0, 0, 0, 200>>,
  <<128, 0, 0, 0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 255>> >>
=============================================================================
