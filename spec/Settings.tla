------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Settings of a phono3py run.  A setting has a default; a configuration   *)
(* file gives it by a tag, the command line by an option.  The table lists *)
(* every setting, its default, and the ways to give it, each with what the *)
(* setting becomes.  The options win over the file, within a file or a     *)
(* command line the last word wins, and nothing else changes.              *)
(*                                                                         *)
(* Values are canonical texts: T, F, -, numbers, [..], and 's:' + string.  *)
(* Control is "main" (phono3py) or "load" (phono3py-load), which differ in *)
(* options and in the defaults of fc_symmetry and is_nac.                  *)
(*                                                                         *)
(* Data: mode ("each": every setting by file or option or both; "mix":     *)
(* anything), control, depth.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
Ctl == W.control
M == {"main"}  L == {"load"}  B == {"main", "load"}

\* a file way is <<tag, text, value>>; an option way is <<where, words, value>>
Row(a, d, f, o) == [a |-> a, d |-> d, f |-> f, o |-> o]
FlagF(tag) == {<<tag, ".TRUE.", "T">>, <<tag, ".false.", "F">>, <<tag, ".True.", "T">>}
FlagW(a, d, tag, w, opts, v) == Row(a, d, FlagF(tag), {<<w, <<o>>, v>> : o \in opts})
Flag(a, tag, opts) == FlagW(a, "F", tag, B, opts, "T")
NoFlag(a, tag, opts) == FlagW(a, "T", tag, B, opts, "F")
Ways(tag, opts, w, vals) == [f |-> {<<tag, v[1], v[2]>> : v \in vals},
                             o |-> {<<w, <<o, v[1]>>, v[2]>> : o \in opts, v \in vals}]
ValueW(a, d, tag, w, opts, vals) == LET x == Ways(tag, opts, w, vals) IN Row(a, d, x.f, x.o)
Value(a, d, tag, opts, vals) == ValueW(a, d, tag, B, opts, vals)
\* values of many words: <<text in a file, words of an option, value>>
ListW(a, d, tags, w, opts, vals) ==
  Row(a, d, {<<t, v[1], v[3]>> : t \in tags, v \in vals},
            {<<w, <<o>> \o v[2], v[3]>> : o \in opts, v \in vals})
List(a, d, tag, opts, vals) == ListW(a, d, {tag}, B, opts, vals)
FileOnly(a, d, tag, vals) == Row(a, d, {<<tag, v[1], v[2]>> : v \in vals}, {})
Floats == {<<"0.5", "0.5">>, <<"1e-3", "0.001">>, <<"12", "12">>, <<"7.25", "7.25">>}
FloatsZ == Floats \cup {<<"0", "0">>}
Ints == {<<"3", "3">>, <<"17", "17">>, <<"250", "250">>}
IntsZ == {<<"0", "0">>, <<"1", "1">>, <<"2", "2">>}
Names == {<<"abc", "s:abc">>, <<"dir/FILE-1.x", "s:dir/FILE-1.x">>, <<"Mixed_Case", "s:Mixed_Case">>}
Reals == {<<"1.5", <<"1.5">>, "[1.5]">>, <<"10 20.5 300", <<"10", "20.5", "300">>, "[10, 20.5, 300]">>,
          <<"1/2 3", <<"1/2", "3">>, "[0.5, 3]">>, <<"0 0.25", <<"0", "0.25">>, "[0, 0.25]">>}
Plain == {v \in Reals : v[1] # "1/2 3"}
Mat(d1, d2, d3) == "[[" \o d1 \o ", 0, 0], [0, " \o d2 \o ", 0], [0, 0, " \o d3 \o "]]"
Mats == {<<"2 3 1", <<"2", "3", "1">>, Mat("2", "3", "1")>>, <<"2 2 2", <<"2", "2", "2">>, Mat("2", "2", "2")>>,
         <<"1 1 0 0 1 1 1 0 1", <<"1", "1", "0", "0", "1", "1", "1", "0", "1">>, "[[1, 1, 0], [0, 1, 1], [1, 0, 1]]">>}
MeshV == {<<"3 4 5", <<"3", "4", "5">>, "[3, 4, 5]">>, <<"50", <<"50">>, "50">>, <<"12.5", <<"12.5">>, "12.5">>,
          <<"0 2 2 2 0 2 2 2 0", <<"0", "2", "2", "2", "0", "2", "2", "2", "0">>, "[[0, 2, 2], [2, 0, 2], [2, 2, 0]]">>}
Axes == {<<"auto", <<"auto">>, "s:auto">>, <<"F", <<"F">>, "s:F">>, <<"p", <<"P">>, "s:P">>,
         <<"0 1/2 1/2 1/2 0 1/2 1/2 1/2 0", <<"0", "1/2", "1/2", "1/2", "0", "1/2", "1/2", "1/2", "0">>,
           "[[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]">>}
Gpts == {<<"0", <<"0">>, "[0]">>, <<"1 5 3", <<"1", "5", "3">>, "[1, 5, 3]">>, <<"2, 7", <<"2,", "7">>, "[2, 7]">>}
Gads == {<<"0 1 2", <<"0", "1", "2">>, "[[0, 1, 2]]">>, <<"0 0 1, 3 0 2", <<"0", "0", "1,", "3", "0", "2">>, "[[0, 0, 1], [3, 0, 2]]">>}
Gmat == {<<"-2 2 2 2 -2 2 2 2 -2", <<"-2", "2", "2", "2", "-2", "2", "2", "2", "-2">>, "[[-2, 2, 2], [2, -2, 2], [2, 2, -2]]">>}
Bis == {<<"1 2, 3", <<"1", "2,", "3">>, "[[0, 1], [2]]">>, <<"1, 2, 4 5 6", <<"1,", "2,", "4", "5", "6">>, "[[0], [1], [3, 4, 5]]">>,
        <<"2", <<"2">>, "[[1]]">>}
Bands == {<<"0 0 0 1/2 0 0, 1/2 1/2 0 0 0 0 0.5 0.5 0.5", <<"0 0 0 1/2 0 0, 1/2 1/2 0 0 0 0 0.5 0.5 0.5">>,
            "[[[0, 0, 0], [0.5, 0, 0]], [[0.5, 0.5, 0], [0, 0, 0], [0.5, 0.5, 0.5]]]">>, <<"auto", <<"auto">>, "s:auto">>}
Qpts == {<<"0 0 0 1/2 0 1/4", <<"0", "0", "0", "1/2", "0", "1/4">>, "[[0, 0, 0], [0.5, 0, 0.25]]">>, <<"0.1 0.2 0.3", <<"0.1", "0.2", "0.3">>, "[[0.1, 0.2, 0.3]]">>}
Qdir == {<<"1 0 0", <<"1", "0", "0">>, "[1, 0, 0]">>, <<"1/2 0.5 0", <<"1/2", "0.5", "0">>, "[0.5, 0.5, 0]">>}
Files2 == {<<"vasprun.xml-1", <<"vasprun.xml-1">>, "[s:vasprun.xml-1]">>, <<"a/v.xml b/v.xml c", <<"a/v.xml", "b/v.xml", "c">>, "[s:a/v.xml, s:b/v.xml, s:c]">>}
Sig(s) == {<<"0.1", <<"0.1">>, "0.1">>, <<"0.05 0.1 0.2", <<"0.05", "0.1", "0.2">>, "[0.05, 0.1, 0.2]">>}
Rds == {<<"auto", "s:auto">>, <<"10", "10">>, <<"1", "1">>}
Calcs == {"qe", "abinit", "crystal", "turbomole", "vasp", "wien2k"}

Table == <<
  \* mode of the run and methods
  Flag("is_bterta", "BTERTA", {"--br", "--bterta"}), Flag("is_lbte", "LBTE", {"--lbte"}),
  Flag("is_isotope", "ISOTOPE", {"--isotope"}), Flag("is_joint_dos", "JOINT_DOS", {"--jdos"}),
  Flag("is_imag_self_energy", "IMAG_SELF_ENERGY", {"--ise"}), Flag("is_real_self_energy", "REAL_SELF_ENERGY", {"--rse"}),
  Flag("is_spectral_function", "SPECTRAL_FUNCTION", {"--spf"}), Flag("is_gruneisen", "GRUNEISEN", {"--gruneisen"}),
  Flag("ion_clamped", "ION_CLAMPED", {"--ion-clamped"}), Flag("is_N_U", "N_U", {"--nu"}),
  Flag("is_full_pp", "FULL_PP", {"--full-pp"}), Flag("use_ave_pp", "USE_AVE_PP", {"--ave-pp"}),
  Flag("use_grg", "USE_GRG", {"--grg", "--generalized-regular-grid"}),
  Flag("solve_collective_phonon", "COLLECTIVE_PHONON", {"--cph", "--collective-phonon"}),
  Flag("is_reducible_collision_matrix", "REDUCIBLE_COLLISION_MATRIX", {"--reducible-colmat"}),
  Flag("is_tetrahedron_method", "TETRAHEDRON", {"--thm", "--tetrahedron-method"}),
  Flag("is_compact_fc", "COMPACT_FC", {"--cfc", "--compact-fc"}),
  Flag("is_symmetrize_fc3_q", "SYMMETRIZE_FC3_Q", {"--sym-fc3q"}),
  FlagW("is_symmetrize_fc2", "F", "SYMMETRIZE_FC2", M, {"--sym-fc2"}, "T"),
  FlagW("is_symmetrize_fc3_r", "F", "SYMMETRIZE_FC3_R", M, {"--sym-fc3r"}, "T"),
  FlagW("fc_symmetry", IF Ctl = "load" THEN "T" ELSE "F", "FC_SYMMETRY", IF Ctl = "load" THEN L ELSE M,
        IF Ctl = "load" THEN {"--no-fc-symmetry", "--no-sym-fc"} ELSE {"--fc-symmetry", "--sym-fc"}, IF Ctl = "load" THEN "F" ELSE "T"),
  FlagW("is_nac", IF Ctl = "load" THEN "T" ELSE "F", "NAC", B,
        IF Ctl = "load" THEN {"--nonac"} ELSE {"--nac"}, IF Ctl = "load" THEN "F" ELSE "T"),
  NoFlag("is_kappa_star", "KAPPA_STAR", {"--noks", "--no-kappa-stars"}),
  NoFlag("is_diagonal_displacement", "DIAG", {"--nodiag"}),
  NoFlag("is_mesh_symmetry", "MESH_SYMMETRY", {"--nomeshsym"}),
  NoFlag("is_symmetry", "SYMMETRY", {"--nosym"}),
  NoFlag("is_fc3_r0_average", "FC3_R0_AVERAGE", {"--v2"}),
  FlagW("is_plusminus_displacement", "s:auto", "PM", B, {"--pm"}, "T"),
  FlagW("is_plusminus_displacement_fc2", "s:auto", "PM_FC2", B, {"--pm-fc2"}, "T"),
  Flag("create_displacements", "CREATE_DISPLACEMENTS", {"-d", "--disp"}),
  Flag("save_params", "SAVE_PARAMS", {"--sp", "--save-params"}),
  Flag("use_pypolymlp", "USE_PYPOLYMLP", {"--pypolymlp"}),
  \* files
  Flag("write_gamma", "WRITE_GAMMA", {"--write-gamma"}), Flag("write_gamma_detail", "WRITE_GAMMA_DETAIL", {"--write-gamma-detail"}),
  Flag("write_collision", "WRITE_COLLISION", {"--write-collision"}), Flag("write_phonon", "WRITE_PHONON", {"--write-phonon"}),
  Flag("write_pp", "WRITE_PP", {"--write-pp"}), Flag("write_LBTE_solution", "WRITE_LBTE_SOLUTION", {"--write-lbte-solution"}),
  Flag("read_gamma", "READ_GAMMA", {"--read-gamma"}), Flag("read_phonon", "READ_PHONON", {"--read-phonon"}),
  Flag("read_pp", "READ_PP", {"--read-pp"}),
  FlagW("read_fc2", "F", "READ_FC2", M, {"--fc2"}, "T"), FlagW("read_fc3", "F", "READ_FC3", M, {"--fc3"}, "T"),
  FlagW("show_symfc_memory_usage", "F", "SHOW_SYMFC_MEMORY_USAGE", L, {"--symfc-memshow"}, "T"),
  Value("read_collision", "-", "READ_COLLISION", {"--read-collision"}, {<<"all", "s:all">>, <<"0", "[0]">>, <<"1 2", "[1, 2]">>}),
  Value("hdf5_compression", "s:gzip", "HDF5_COMPRESSION", {"--hdf5-compression"},
        {<<"lzf", "s:lzf">>, <<"4", "4">>, <<"none", "-">>, <<"None", "-">>, <<"gzip", "s:gzip">>}),
  ValueW("cell_filename", "-", "CELL_FILENAME", M, {"-c", "--cell"}, Names),
  ValueW("output_yaml_filename", "-", "OUTPUT_YAML_FILENAME", L, {"-o"}, Names),
  Value("create_forces_fc3_file", "-", "CREATE_FORCES_FC3_FILE", {"--cf3-file", "--create-f3-from-file"}, Names),
  Value("subtract_forces", "-", "SUBTRACT_FORCES", {"--cfz", "--subtract-forces"}, Names),
  Value("subtract_forces_fc2", "-", "SUBTRACT_FORCES_FC2", {"--cfz-fc2", "--subtract-forces-fc2"}, Names),
  List("create_forces_fc2", "-", "CREATE_FORCES_FC2", {"--cf2", "--create-f2"}, Files2),
  List("create_forces_fc3", "-", "CREATE_FORCES_FC3", {"--cf3", "--create-f3"}, Files2),
  \* numbers
  Value("boundary_mfp", "1000000", "BOUNDARY_MFP", {"--boundary-mfp", "--bmfp"}, Floats),
  Value("constant_averaged_pp_interaction", "-", "CONST_AVE_PP", {"--const-ave-pp"}, FloatsZ),
  Value("cutoff_fc3_distance", "-", "CUTOFF_FC3_DISTANCE", {"--cutoff-fc3", "--cutoff-fc3-distance"}, FloatsZ),
  Value("cutoff_pair_distance", "-", "CUTOFF_PAIR_DISTANCE", {"--cutoff-pair", "--cutoff-pair-distance"}, FloatsZ),
  Value("cutoff_frequency", "-", "CUTOFF_FREQUENCY", {"--cutoff-freq", "--cutoff-frequency"}, FloatsZ),
  Value("displacement_distance", "-", "DISPLACEMENT_DISTANCE", {"--amplitude"}, Floats),
  Value("frequency_conversion_factor", "-", "FREQUENCY_CONVERSION_FACTOR", {"--factor"}, Floats),
  Value("frequency_scale_factor", "-", "FREQUENCY_SCALE_FACTOR", {"--freq-scale"}, Floats),
  Value("frequency_pitch", "-", "FPITCH", {"--freq-pitch"}, Floats),
  Value("group_velocity_delta_q", "-", "GV_DELTA_Q", {"--gv-delta-q"}, Floats),
  Value("pinv_cutoff", "1e-08", "PINV_CUTOFF", {"--pinv-cutoff"}, FloatsZ),
  Value("pp_conversion_factor", "-", "PP_CONVERSION_FACTOR", {"--pp-unit-conversion"}, Floats),
  Value("sigma_cutoff_width", "-", "SIGMA_CUTOFF_WIDTH", {"--sigma-cutoff"}, Floats),
  Value("symmetry_tolerance", "-", "SYMMETRY_TOLERANCE", {"--tolerance"}, Floats),
  Value("max_temperature", "1000", "TMAX", {"--tmax"}, Floats),
  Value("min_temperature", "0", "TMIN", {"--tmin"}, FloatsZ),
  Value("temperature_step", "10", "TSTEP", {"--tstep"}, Floats),
  FileOnly("max_freepath", "-", "MAX_FREEPATH", Floats),
  Value("pinv_method", "0", "PINV_METHOD", {"--pinv-method"}, IntsZ),
  Value("pinv_solver", "0", "PINV_SOLVER", {"--pinv-solver"}, IntsZ \cup Ints),
  Value("num_points_in_batch", "-", "NUM_POINTS_IN_BATCH", {"--num-points-in-batch"}, Ints),
  Value("num_frequency_points", "-", "NUM_FREQUENCY_POINTS", {"--num-freq-points"}, Ints),
  Value("band_points", "-", "BAND_POINTS", {"--band-points"}, Ints),
  Value("scattering_event_class", "-", "SCATTERING_EVENT_CLASS", {"--scattering-event-class"}, {<<"1", "1">>, <<"2", "2">>}),
  Value("random_seed", "-", "RANDOM_SEED", {"--random-seed"}, Ints \cup {<<"0", "0">>}),
  Value("random_displacements", "-", "RANDOM_DISPLACEMENTS", {"--rd", "--random-displacements"}, Rds),
  Value("random_displacements_fc2", "-", "RANDOM_DISPLACEMENTS_FC2", {"--rd-fc2", "--random-displacements-fc2"}, Rds),
  \* texts
  Row("conductivity_type", "-", {<<"CONDUCTIVITY_TYPE", "wigner", "s:wigner">>, <<"CONDUCTIVITY_TYPE", "kubo", "s:kubo">>},
      {<<B, <<"--wigner">>, "s:wigner">>, <<B, <<"--kubo">>, "s:kubo">>}),
  Row("calculator", "-", {<<"CALCULATOR", c, "s:" \o c>> : c \in Calcs}, {<<B, <<"--" \o c>>, "s:" \o c>> : c \in Calcs}),
  Row("fc_calculator", "-", {<<"FC_CALCULATOR", c, "s:" \o c>> : c \in {"symfc", "alm"}},
      {<<B, <<"--symfc">>, "s:symfc">>, <<B, <<"--alm">>, "s:alm">>}
      \cup {<<B, <<o, c>>, "s:" \o c>> : o \in {"--fc-calc", "--fc-calculator"}, c \in {"symfc", "alm"}}),
  Value("lapack_zheev_uplo", "s:L", "LAPACK_ZHEEV_UPLO", {"--uplo"}, {<<"U", "s:U">>, <<"u", "s:U">>, <<"l", "s:L">>}),
  Value("nac_method", "-", "NAC_METHOD", {"--nac-method"}, {<<"Wang", "s:wang">>, <<"gonze", "s:gonze">>}),
  Row("fc_calculator_options", "-", {<<"FC_CALCULATOR_OPTIONS", "cutoff4", "s:cutoff4">>, <<"FC_CALCULATOR_OPTIONS", "use_mkl", "s:use_mkl">>},
      {<<B, <<o, v>>, "s:" \o v>> : o \in {"--fc-calc-opt", "--fc-calculator-options"}, v \in {"cutoff = 4.5", "use_mkl = true, cutoff = 3"}}),
  Row("mlp_params", "-", {<<"MLP_PARAMS", "abc", "s:abc">>}, {<<B, <<"--mlp-params", v>>, "s:" \o v>> : v \in {"ntrain = 4", "abc"}}),
  \* lists and matrices
  ListW("supercell_matrix", "-", {"DIM"}, M, {"--dim"}, Mats), ListW("phonon_supercell_matrix", "-", {"DIM_FC2"}, M, {"--dim-fc2"}, Mats),
  List("primitive_matrix", "-", "PRIMITIVE_AXES", {"--pa", "--primitive-axis", "--primitive-axes"}, Axes),
  LET m == ListW("", "", {"MESH", "MESH_NUMBERS", "MP"}, B, {"--mesh"}, MeshV)
      g == ListW("", "", {"GRID_MATRIX"}, B, {"--gm", "--grid-matrix"}, Gmat) IN
    Row("mesh_numbers", "-", m.f \cup g.f, m.o \cup g.o),
  List("grid_points", "-", "GRID_POINTS", {"--gp", "--grid-points"}, Gpts),
  List("grid_addresses", "-", "GRID_ADDRESSES", {"--ga", "--grid-addresses"}, Gads),
  List("band_indices", "-", "BAND_INDICES", {"--bi", "--band-indices"}, Bis),
  List("band_paths", "-", "BAND", {"--band"}, Bands), List("qpoints", "-", "QPOINTS", {"--qpoints"}, Qpts),
  List("nac_q_direction", "-", "Q_DIRECTION", {"--q-direction"}, Qdir),
  List("temperatures", "-", "TEMPERATURES", {"--ts"}, Reals), List("mass_variances", "-", "MASS_VARIANCES", {"--mv", "--mass-variances"}, Reals),
  List("masses", "-", "MASS", {"--mass"}, Plain), List("magnetic_moments", "-", "MAGMOM", {"--magmom"}, Plain),
  List("sigma", "-", "SIGMA", {"--sigma"}, Sig(0))
>>
N == Len(Table)
Rows == TLCEval([i \in 1..N |-> Table[i]])
Attrs == {Rows[i].a : i \in 1..N}
ASSUME Cardinality(Attrs) = N
\* switching the crystal symmetry off switches the mesh symmetry off
Sets(a, v) == IF a = "is_symmetry" /\ v = "F" THEN {a, "is_mesh_symmetry"} ELSE {a}

VARIABLES set,    \* settings after the file and the command line
          byf,    \* settings after the file
          nf,     \* mix: words in the file
          hist
vars == <<set, byf, nf, hist>>
Def == TLCEval([a \in Attrs |-> (CHOOSE i \in 1..N : Rows[i].a = a) ])
Defaults == TLCEval([a \in Attrs |-> Rows[Def[a]].d])
Mix == W.mode = "mix"
Init == set = Defaults /\ byf = Defaults /\ hist = <<>> /\ nf \in IF Mix THEN 0..Depth ELSE {0}
Names1(h, route) == {h[k].key : k \in {j \in 1..Len(h) : h[j].route = route}}
Given(h, route) == {h[k].a : k \in {j \in 1..Len(h) : h[j].route = route}}
HasOpt(h) == \E k \in 1..Len(h) : h[k].route = "option"
\* a setting is given by one tag and by one option only; phono3py reads the
\* file first whatever the history is
OneWord(route, a, key) ==
  /\ a \in Given(hist, route) => key \in Names1(hist, route)
  /\ (a = "is_symmetry" /\ "is_mesh_symmetry" \in Given(hist, route)) = FALSE
  /\ (a = "is_mesh_symmetry" /\ "is_symmetry" \in Given(hist, route)) = FALSE
\* all ways, or some random ones with settings already given among them
Some(R) == IF Mix THEN RandomSubset(4, R) ELSE R
One(S) == IF Mix /\ S # {} THEN RandomSubset(1, S) ELSE S
GivenRows == {Def[hist[k].a] : k \in 1..Len(hist)}
Cand == IF Mix THEN Some(1..N) \cup One(GivenRows) ELSE 1..N
File == \E i \in Cand : \E w \in One(Rows[i].f) :
  /\ Mix => Len(hist) < nf
  /\ ~HasOpt(hist) /\ OneWord("file", Rows[i].a, w[1])
  /\ W.mode = "each" => hist = <<>>
  /\ LET a == Rows[i].a s == [x \in Attrs |-> IF x \in Sets(a, w[3]) THEN w[3] ELSE set[x]] IN
     /\ set' = s /\ byf' = s
     /\ hist' = Append(hist, [route |-> "file", a |-> a, key |-> w[1], words |-> <<w[2]>>, v |-> w[3]])
Option == \E i \in Cand : \E w \in One(Rows[i].o) :
  /\ Mix => Len(hist) >= nf
  /\ Ctl \in w[1] /\ OneWord("option", Rows[i].a, w[2][1])
  /\ W.mode = "each" => \A k \in 1..Len(hist) : hist[k].a = Rows[i].a /\ hist[k].route = "file"
  /\ LET a == Rows[i].a IN
     /\ set' = [x \in Attrs |-> IF x \in Sets(a, w[3]) THEN w[3] ELSE set[x]] /\ UNCHANGED byf
     /\ hist' = Append(hist, [route |-> "option", a |-> a, key |-> w[2][1], words |-> SubSeq(w[2], 2, Len(w[2])), v |-> w[3]])
Next == /\ Len(hist) < Depth
        /\ UNCHANGED nf /\ (File \/ Option)
Spec == Init /\ [][Next]_vars

TypeOK == DOMAIN set = Attrs
\* options win over the file, the last word wins, what is not given is the default
Last(route, a) == LET S == {k \in 1..Len(hist) : hist[k].route = route /\ a \in Sets(hist[k].a, hist[k].v)} IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Precedence == \A a \in Attrs : LET o == Last("option", a) f == Last("file", a) IN
  set[a] = IF o # 0 THEN hist[o].v ELSE IF f # 0 THEN hist[f].v ELSE Defaults[a]
FileAlone == \A a \in Attrs : Last("option", a) = 0 => set[a] = byf[a]
NoCross == [][\A a \in Attrs : a \notin Sets(hist'[Len(hist')].a, hist'[Len(hist')].v) => set'[a] = set[a]]_vars
\* what a run makes of them: smearing widths ("-": tetrahedron method), sampling
\* frequencies, temperatures (in 1/1000 K: first, step, how many)
SigList == ("-" :> <<>>) @@ ("0.1" :> <<"0.1">>) @@ ("[0.05, 0.1, 0.2]" :> <<"0.05", "0.1", "0.2">>)
Milli == ("0" :> 0) @@ ("0.5" :> 500) @@ ("0.001" :> 1) @@ ("12" :> 12000) @@ ("7.25" :> 7250) @@ ("1000" :> 1000000) @@ ("10" :> 10000)
Or(x, d) == IF x = "-" THEN d ELSE x
Derived(s) ==
  LET l == (IF s["is_tetrahedron_method"] = "T" THEN <<"-">> ELSE <<>>) \o SigList[s["sigma"]]
      n == s["num_frequency_points"] p == s["frequency_pitch"]
      lo == Milli[s["min_temperature"]] hi == Milli[s["max_temperature"]] st == Milli[s["temperature_step"]]
      c == (10 * (hi - lo) + st - 1) \div (10 * st) + 1 IN
  [sigmas |-> IF l = <<>> THEN <<"-">> ELSE l,
   npoints |-> IF n # "-" THEN n ELSE IF p # "-" THEN "-" ELSE "201", step |-> IF n # "-" THEN "-" ELSE p,
   cutoff |-> Or(s["cutoff_frequency"], "0.01"), batch |-> Or(s["num_points_in_batch"], "10"),
   tpoints |-> IF s["temperatures"] # "-" THEN s["temperatures"] ELSE IF s["is_joint_dos"] = "T" THEN "-" ELSE "[0, 300]",
   temps |-> IF s["temperatures"] # "-" THEN s["temperatures"] ELSE IF s["is_joint_dos"] = "T" THEN "-" ELSE "range",
   range |-> <<lo, st, IF c < 0 THEN 0 ELSE c>>]
Emit == (IF Mix THEN Len(hist) = Depth ELSE TRUE) => PrintT(ToJson([hist |-> hist,
          full |-> IF hist = <<>> THEN Defaults ELSE <<>>, der |-> Derived(set),
          set |-> [a \in {x \in Attrs : set[x] # Defaults[x]} |-> set[a]]]))
=============================================================================
