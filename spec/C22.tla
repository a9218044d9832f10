-------------------------------- MODULE C22 --------------------------------
(***************************************************************************)
(* C22  STEP geometry is imported as the standard defines it.              *)
(* Model state: the geometry the file describes, unsupported parts left    *)
(* out.  Events: file (what was written), read (how much was found), and   *)
(* points of the surfaces and curves found.                                *)
(***************************************************************************)
EXTENDS Step, Conform

Faces(e) == LET fs == SelectSeq(e.faces, LAMBDA f : Supported(f.s))
            IN TLCEval([i \in 1 .. Len(fs) |-> StepSurfaceOf(fs[i].s, fs[i].sense)])
SegmentsOf(k) == LET ss == SelectSeq(k, Supported) IN TLCEval([i \in 1 .. Len(ss) |-> StepCurveOf(ss[i])])

JudgeC22(e, s) ==
    CASE e.op = "file" -> Ok([faces |-> Faces(e), curves |-> TLCEval([i \in 1 .. Len(e.curves) |-> SegmentsOf(e.curves[i])])])
      [] e.op = "read" ->
           IF e.faces # Len(s.faces) THEN No("the model does not have one face per face with a supported surface")
           ELSE IF Len(e.curves) # Len(s.curves) THEN No("the model does not have one curve per composite curve")
           ELSE Expect(\A i \in 1 .. Len(s.curves) : e.curves[i] = Len(s.curves[i]), s,
                       "a composite curve does not have one segment per supported segment")
      [] e.op = "surface" ->
           LET f == s.faces[e.i]
               want == SurfaceAt(f, F64(e.u), F64(e.v))
               tol == Slack(RMul(RInt(16), RAdd(VMax(want), SurfaceSize(f))))
           IN Expect(IsVec(e.out, 3) /\ VNear(FV(e.out), want, tol), s, "a point of an imported " \o f.kind \o " surface is not where the file says")
      [] e.op = "curve" ->
           LET k == s.curves[e.i][e.j]
               want == CurveAt(k, F64(e.u))
               tol == Slack(RMul(RInt(16), RAdd(VMax(want), CurveSize(k))))
           IN Expect(IsVec(e.out, 3) /\ VNear(FV(e.out), want, tol), s, "a point of an imported " \o k.kind \o " is not where the file says")
      [] e.op = "normal" ->
           LET f == s.faces[e.i]
           IN IF f.kind # "plane" THEN No("a surface that is no plane was imported as one")
              ELSE IF e.bounds # 0 THEN No("a loop without edges became a bound")
              ELSE Expect(IsVec(e.out, 3) /\ VNear(FV(e.out), VCross(f.x, f.y), Eps(30)), s,
                          "the normal of an imported plane does not point the way of the face")
=============================================================================
