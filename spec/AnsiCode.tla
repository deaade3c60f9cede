------------------------------ MODULE AnsiCode ------------------------------
(* The documented codes of formatting keywords and colours. *)
EXTENDS Ascii

CSI == <<27, 91>>

FgCode(n) == IF n < 8 THEN T("3") \o NatText(n)
             ELSE IF n < 16 THEN T("9") \o NatText(n - 8)
             ELSE T("38;5;") \o NatText(n)

KeywordCode == [
  reset |-> "0", bold |-> "1", dim |-> "2", italic |-> "3", underline |-> "4", blink |-> "5", strike |-> "9"]
KeywordOff == [
  bold |-> "21", dim |-> "22", italic |-> "23", underline |-> "24", blink |-> "25", strike |-> "29", fg |-> "39", color |-> "39"]

(* The colours that have a name. *)
ColorNames == <<
  <<"black", 0>>, <<"red", 1>>, <<"green", 2>>, <<"yellow", 3>>, <<"blue",
  4>>, <<"magenta", 5>>, <<"cyan", 6>>, <<"light_grey", 7>>, <<"dark_grey",
  8>>, <<"light_red", 9>>, <<"light_green", 10>>, <<"light_yellow", 11>>,
  <<"light_blue", 12>>, <<"light_magenta", 13>>, <<"light_cyan", 14>>,
  <<"white", 15>>, <<"navy_blue", 17>>, <<"dark_blue", 18>>, <<"dark_green",
  22>>, <<"dark_cyan", 36>>, <<"light_sea_green", 37>>, <<"dark_turquoise",
  44>>, <<"medium_spring_green", 49>>, <<"blue_violet", 57>>,
  <<"royal_blue", 63>>, <<"steel_blue", 67>>, <<"cornflower_blue", 69>>,
  <<"medium_turquoise", 80>>, <<"light_slate_grey", 103>>,
  <<"medium_purple", 104>>, <<"light_slate_blue", 105>>, <<"dark_sea_green",
  108>>, <<"medium_violet_red", 126>>, <<"dark_goldenrod", 136>>,
  <<"rosy_brown", 138>>, <<"dark_khaki", 143>>, <<"light_steel_blue", 147>>,
  <<"green_yellow", 154>>, <<"orchid", 170>>, <<"violet", 177>>, <<"tan",
  180>>, <<"honeydew", 194>>, <<"orange_red", 201>>, <<"dark_orange", 208>>,
  <<"salmon", 209>>, <<"light_coral", 210>>, <<"sandy_brown", 215>>,
  <<"cornsilk", 230>> >>

ResetSeq == CSI \o T("0m")
ColorSeq(n) == CSI \o FgCode(n) \o T("m")
BoldColorSeq(n) == CSI \o T("1;") \o FgCode(n) \o T("m")
=============================================================================
