---------------------------- MODULE Conf_Strength ---------------------------
(* One event is one laminate under one set of loads with all its tables.    *)
EXTENDS TraceBase, Strength
CONSTANT What                    \* "balance" (C05), "axes" (C06) or "margins" (C07)

Plies(e) == TLCEval([i \in 1..Len(e.plies) |->
              LET p == e.plies[i] IN MkPly(Ortho(p[1], p[2], p[3], p[4]), p[5], p[6])])
Col(tab, c, n) == TLCEval([i \in 1..n |-> tab[c + i - 1]])
\* row layout of strain and stress: <<ply, position, angle, z, 3 plate, 3 material>>
Labels(e, tab, pl, z) ==
    Len(tab) = NRows(pl) /\
    \A r \in 1..Len(tab) :
       /\ tab[r][1] = PlyOf(r) /\ tab[r][2] = FaceOf(r)
       /\ tab[r][3] = e.plies[PlyOf(r)][6]
       /\ FNear(tab[r][4], ZOf(z, r), TolTight, Thick(pl))
T8 == FTenTo(8)

Balance(e) ==
    LET pl == Plies(e)  K == LamStiff(pl)  z == Heights(pl)
        es == FMaxAbs(Col(e.eps0, 1, 3))  ks == FMaxAbs(Col(e.eps0, 4, 3))
        escale == FAdd(es, FMul(ks, Thick(pl)))
        qs == TLCEval([i \in 1..Len(pl) |-> FMax(FMax(pl[i].q[1], pl[i].q[3]), pl[i].q[4])])
        labels == Labels(e, e.strain, pl, z) /\ Labels(e, e.stress, pl, z)
        sscale == FMul(FMaxAbs(qs), escale)
    IN Clause("midplane_equilibrium", \A i \in 1..6 : FNear(Dot(K[i], e.eps0), e.N[i], T8,
                 LET f == FMul(FMul(MatMaxAbs(AMat(pl)), escale), IF i <= 3 THEN FOne ELSE Thick(pl)) IN f))
       \cup Clause("row_labels", labels)
       \cup (IF ~labels THEN {} ELSE
             Clause("strain_linear_in_height", \A r \in 1..NRows(pl) :
                      VecNear(Col(e.strain[r], 5, 3), StrainAt(e.eps0, ZOf(z, r)), TolTight, escale))
             \cup Clause("stress_is_ply_stiffness_times_strain", \A r \in 1..NRows(pl) :
                      VecNear(Col(e.stress[r], 5, 3), StressIn(pl[PlyOf(r)], StrainAt(e.eps0, ZOf(z, r))), TolTight,
                              FMul(qs[PlyOf(r)], escale)))
             \cup Clause("resultants_balance_loads",
                    LET R == Resultants(pl, z, LAMBDA r : Col(e.stress[r], 5, 3))
                        h == Thick(pl)
                    IN \A i \in 1..6 : FNear(R[i], e.N[i], T8, IF i <= 3 THEN FMul(sscale, h) ELSE FMul(sscale, FMul(h, h)))))

Axes(e) ==
    LET pl == Plies(e)
        rows == Len(e.strain) = NRows(pl) /\ Len(e.stress) = NRows(pl)
        s3(tab, c, r) == Col(tab[r], c, 3)
        sc(v) == FMaxAbs(v)
    IN Clause("two_rows_per_ply", rows)
       \cup (IF ~rows THEN {} ELSE UNION {
          LET p == pl[PlyOf(r)]
              ex == s3(e.strain, 5, r)  e1 == s3(e.strain, 8, r)
              sx == s3(e.stress, 5, r)  s1 == s3(e.stress, 8, r)
              qs == FMax(FMax(p.q[1], p.q[3]), p.q[4])
          IN Clause("strain_turned_by_ply_angle", VecNear(e1, ToMatStrain(p, ex), TolTight, sc(ex)))
             \cup Clause("stress_turned_by_ply_angle", VecNear(s1, ToMatStress(p, sx), TolTight, sc(sx)))
             \cup Clause("ply_stiffness_maps_material_strain", VecNear(s1, MatVec(QMat(p.q), e1), TolTight, FMul(qs, sc(ex))))
             \cup Clause("same_energy", FNear(Dot(ex, sx), Dot(e1, s1), TolTight, FMul(sc(ex), FAdd(sc(sx), FMul(qs, sc(ex))))))
          : r \in 1..NRows(pl)})

\* margin row: <<ply, position, angle, 5 margins, critical>>
MFinite(m) == IsFx(m)
Margins(e) ==
    LET n == 2 * Len(e.plies)
        rows == Len(e.margin) = n /\ Len(e.stress) = n
    IN Clause("two_rows_per_ply", rows)
       \cup (IF ~rows THEN {} ELSE UNION {
          LET m == e.margin[r]  s == e.stress[r]
              act == Acting(Col(s, 8, 3))
              al == e.allow[PlyOf(r)]
              ms == Col(m, 4, 5)
              want == TLCEval([k \in 1..5 |-> Margin(al[k], act[k])])
              crit == {k \in 1..5 : Modes[k] = m[9]}
          IN Clause("same_ply_face_angle_as_stress_row", m[1] = s[1] /\ m[2] = s[2] /\ m[3] = s[3])
             \cup Clause("own_ply", m[1] = PlyOf(r) /\ m[2] = FaceOf(r) /\ m[3] = e.plies[PlyOf(r)][6])
             \cup Clause("margin_is_allowable_over_stress_minus_one", \A k \in 1..5 :
                     IF want[k] = NaN THEN TRUE ELSE IF want[k] = PInf THEN ms[k] = PInf
                     ELSE FNear(ms[k], want[k], TolTight, FAdd(FOne, FAbs(want[k]))))
             \cup Clause("negative_exactly_when_exceeded", \A k \in 1..5 :
                     FNear(act[k], al[k], TolTight, al[k]) \/ want[k] = NaN \/ ((IsFx(ms[k]) /\ ms[k][1] < 0) = FLt(al[k], act[k])))
             \cup Clause("critical_mode_smallest", (crit # {} \/ \A j \in 1..5 : ~IsFx(ms[j])) /\ \A k \in crit : \A j \in 1..5 : MLe(ms[k], ms[j]))
          : r \in 1..n})

Judge(e) == IF e.err # "" THEN {"built_and_readable"}
            ELSE CASE What = "balance" -> Balance(e) [] What = "axes" -> Axes(e) [] What = "margins" -> Margins(e)
Init == TraceInit
Next == Consume(Judge)
=============================================================================
