---- MODULE T_Data ----
(* Trace validation of formatting, conversions, text files. *)
EXTENDS Data, TraceIO
VARIABLE l

Common(e) == << <<"input-modified", ~e.mod>>, <<"result-shares-memory-with-the-input", ~e.alias>> >>
D(e) == IF Len(e.x) = 0 THEN 1 ELSE Len(e.x[1])
JTs(e) == IF e.err # "" THEN {"raised " \o e.err}
          ELSE Failed(<< <<"values", e.out = (IF e.rn THEN Strip(e.x) ELSE e.x)>>,
                         <<"shape", e.shape = <<Len(e.out), e.d>> >>, <<"dtype", e.dtype = e.want>> >> \o Common(e))
JDs(e) == IF e.err # "" THEN {"raised " \o e.err}
          ELSE Failed(<< <<"values", e.out = Format(e.A, e.d)>>,
                         <<"shape", e.shape = IF Len(e.A) = 0 THEN <<0, 0, 0>> ELSE <<Len(e.A), MaxSize(e.A), e.d>> >>,
                         <<"dtype", e.dtype = e.want>>, <<"backend", e.kind = e.be>>,
                         <<"formatting-again-changes-it", e.again>> >> \o Common(e))
JSize(e) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(<< <<"size", e.v = Size(e.x)>> >>)
JEq(e) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(<< <<"equal-size", e.v = EqualSize(e.A)>> >>)
\* check_dataset: accepted exactly when every requested condition holds
JChk(e) ==
  LET ok == (e.uni => e.d = 1) /\ (e.eq => EqualSize(e.A)) /\ (e.single => Len(e.A) = 1) IN
  IF ok THEN (IF e.err # "" THEN {"refused an admissible dataset"} ELSE Failed(<< <<"values", e.out = Format(e.A, e.d)>> >>))
  ELSE Failed(<< <<"accepted a dataset it must refuse", e.err = "ValueError">> >>)
\* check_dims: 2-dimensional input is extended, the remaining dimensions must match those of the fitted data
JDims(e) ==
  LET s == IF Len(e.shape) = 2 /\ e.extend THEN e.shape \o <<1>> ELSE e.shape
      ok == ~e.hasfit \/ (IF e.feat THEN Len(s) > 2 /\ e.fit[3] = s[3] ELSE SubSeq(e.fit, 2, Len(e.fit)) = SubSeq(s, 2, Len(s))) IN
  IF ok THEN Failed(<< <<"refused matching dimensions", e.err = "">>, <<"shape", e.err # "" \/ e.out = s>>, <<"values", e.err # "" \/ e.same>> >>)
  ELSE Failed(<< <<"accepted other dimensions", e.err # "">> >>)

Eq(e, want) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(<< <<e.fmt \o "-values", e.out = want>>, <<"input-modified", ~e.mod>> >>)
JTo(e) ==
  CASE e.fmt = "sklearn" -> Eq(e, ToSklearn(e.A, e.d))
    [] e.fmt = "pyts" -> IF EqualSize(e.A) THEN Eq(e, ToPyts(e.A, e.d)) ELSE Failed(<< <<"unequal lengths refused", e.err = "ValueError">> >>)
    [] e.fmt = "seglearn" -> Eq(e, ToSeglearn(e.A))
    [] e.fmt = "stumpy" -> Eq(e, ToStumpy(e.A, e.d))
    [] e.fmt = "cesium" -> Eq(e, ToStumpy(e.A, e.d))
    [] e.fmt = "sktime" -> Eq(e, ToSktime(e.A, e.d))
    [] e.fmt = "pyflux" -> IF Len(e.A) = 1 THEN Eq(e, ToPyflux(Format(e.A, e.d)[1], e.d)) ELSE Failed(<< <<"several series refused", e.err = "ValueError">> >>)
    [] e.fmt = "tsfresh" -> Eq(e, ToTsfresh(e.A))
    [] OTHER -> {"unknown format"}
JBack(e) == IF e.err # "" THEN {"raised " \o e.err}
            ELSE Failed(<< <<e.fmt \o "-roundtrip", e.out = Format(e.A, e.d)>>, <<"shape", e.shape = <<Len(e.A), MaxSize(e.A), e.d>> >>, <<"input-modified", ~e.mod>> >>)
\* text: the dimensions of a series are separated by bars, the values by blanks; values are logged as bit patterns
JText(e) == IF e.err # "" THEN {"raised " \o e.err}
            ELSE Failed(<< <<"one field per dimension", Len(e.fields) = e.d>>,
                           <<"one token per time stamp", \A k \in 1..Len(e.fields): e.fields[k] = Len(e.x)>>,
                           <<"string-roundtrip", e.back = e.x>> >>)
JFile(e) == IF e.err # "" THEN {"raised " \o e.err}
            ELSE Failed(<< <<"one line per series", e.lines = Len(e.A)>>, <<"file-roundtrip", e.out = e.want>>,
                           <<"shape", e.shape = <<Len(e.A), e.msz, e.d>> >> >>)
Judge(e) ==
  CASE e.k = "ts" -> JTs(e)
    [] e.k = "ds" -> JDs(e)
    [] e.k = "size" -> JSize(e)
    [] e.k = "eq" -> JEq(e)
    [] e.k = "chk" -> JChk(e)
    [] e.k = "dims" -> JDims(e)
    [] e.k = "to" -> JTo(e)
    [] e.k = "back" -> JBack(e)
    [] e.k = "text" -> JText(e)
    [] e.k = "file" -> JFile(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
