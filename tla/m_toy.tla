(* sources f765acae1954563dffcb2f04 *)
--------------------------------- MODULE m_toy ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Seq(Int));
*)
PBITS_OF == <<3, 5, 6>>

VARIABLE
  (*
    @type: Bool;
  *)
  holds

(*
  @type: (() => Seq(Int));
*)
ORDER == <<3, 7, 13>>

(*
  @type: (() => Int);
*)
m_toy_A_SIGN == 5

(*
  @type: (() => Int);
*)
m_toy_A_P == 7

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_ID == [x |-> 0, y |-> 1, z |-> 1]

(*
  @type: (() => Int);
*)
m_toy_A_D == 5

(*
  @type: (() => Int);
*)
m_toy_A_PBITS == 3

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_NEUTRAL == [x |-> 0, y |-> 1, z |-> 1, t |-> 0]

(*
  @type: ((Int, Int, Int) => Int);
*)
m_toy_A_adjusted(m_toy_A_k_3402, m_toy_A_q_3402, m_toy_A_bits_3402) ==
  ((m_toy_A_k_3402 + 2 ^ m_toy_A_bits_3402) - 1) * ((m_toy_A_q_3402 + 1) \div 2)
    % m_toy_A_q_3402

(*
  @type: (() => Int);
*)
m_toy_A_L == 3

(*
  @type: (() => Int);
*)
m_toy_B_SIGN == 7

(*
  @type: (() => Int);
*)
m_toy_B_P == 19

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_ID == [x |-> 0, y |-> 1, z |-> 1]

(*
  @type: (() => Int);
*)
m_toy_B_D == 8

(*
  @type: (() => Int);
*)
m_toy_B_PBITS == 5

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_NEUTRAL == [x |-> 0, y |-> 1, z |-> 1, t |-> 0]

(*
  @type: ((Int, Int, Int) => Int);
*)
m_toy_B_adjusted(m_toy_B_k_3402, m_toy_B_q_3402, m_toy_B_bits_3402) ==
  ((m_toy_B_k_3402 + 2 ^ m_toy_B_bits_3402) - 1) * ((m_toy_B_q_3402 + 1) \div 2)
    % m_toy_B_q_3402

(*
  @type: (() => Int);
*)
m_toy_B_L == 7

(*
  @type: (() => Int);
*)
m_toy_C_SIGN == 8

(*
  @type: (() => Int);
*)
m_toy_C_P == 43

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_ID == [x |-> 0, y |-> 1, z |-> 1]

(*
  @type: (() => Int);
*)
m_toy_C_D == 5

(*
  @type: (() => Int);
*)
m_toy_C_PBITS == 6

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_NEUTRAL == [x |-> 0, y |-> 1, z |-> 1, t |-> 0]

(*
  @type: ((Int, Int, Int) => Int);
*)
m_toy_C_adjusted(m_toy_C_k_3402, m_toy_C_q_3402, m_toy_C_bits_3402) ==
  ((m_toy_C_k_3402 + 2 ^ m_toy_C_bits_3402) - 1) * ((m_toy_C_q_3402 + 1) \div 2)
    % m_toy_C_q_3402

(*
  @type: (() => Int);
*)
m_toy_C_L == 13

(*
  @type: (() => Int);
*)
m_toy_A_GX == 2

(*
  @type: (() => Int);
*)
m_toy_A_GY == 4

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_T4 == [x |-> 1, y |-> 0, z |-> 1]

(*
  @type: (() => Int);
*)
m_toy_B_GX == 2

(*
  @type: (() => Int);
*)
m_toy_B_GY == 9

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_T4 == [x |-> 1, y |-> 0, z |-> 1]

(*
  @type: (() => Int);
*)
m_toy_C_GX == 2

(*
  @type: (() => Int);
*)
m_toy_C_GY == 39

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_T4 == [x |-> 1, y |-> 0, z |-> 1]

(*
  @type: ((Int) => Int);
*)
m_toy_A_twoAdic(m_toy_A_n_3092) ==
  LET (*
    @type: (({ n: Int, on: Bool, r: Int }, Int) => { n: Int, on: Bool, r: Int });
  *)
  __QUINT_LAMBDA76(m_toy_A_s_3088, m_toy_A_i_3088) ==
    IF m_toy_A_s_3088["on"] /\ m_toy_A_s_3088["n"] % 2 = 0
    THEN [n |-> m_toy_A_s_3088["n"] \div 2,
      r |-> m_toy_A_s_3088["r"] + 1,
      on |-> TRUE]
    ELSE [ m_toy_A_s_3088 EXCEPT !["on"] = FALSE ]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA76, [n |-> m_toy_A_n_3092,
    r |-> 0,
    on |-> m_toy_A_n_3092 /= 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA75(__quint_var36) == (0 + __quint_var36) - 1
  IN
  MkSeq((32 - 0), __QUINT_LAMBDA75)))[
    "r"
  ]

(*
  @type: ((Seq({ addend: Int, power: Int })) => Int);
*)
m_toy_A_valueOf(m_toy_A_ds_3277) ==
  LET (*
    @type: ((Int, { addend: Int, power: Int }) => Int);
  *)
  __QUINT_LAMBDA81(m_toy_A_s_3275, m_toy_A_d_3275) ==
    m_toy_A_s_3275 + m_toy_A_d_3275["addend"] * 2 ^ m_toy_A_d_3275["power"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA81, 0, m_toy_A_ds_3277)

(*
  @type: ((Seq({ addend: Int, power: Int }), Int) => Bool);
*)
m_toy_A_proper(m_toy_A_ds_3364, m_toy_A_tb_3364) ==
  (Len(m_toy_A_ds_3364) = 0 \/ m_toy_A_ds_3364[(0 + 1)]["addend"] > 0)
    /\ (\A m_toy_A_i_3361 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var39 == DOMAIN m_toy_A_ds_3364
    IN
    IF __quint_var39 = {}
    THEN {}
    ELSE (__quint_var39 \union {0}) \ {(Len(m_toy_A_ds_3364))}:
      m_toy_A_ds_3364[(m_toy_A_i_3361 + 1)]["addend"] % 2 /= 0
        /\ -(2 ^ (m_toy_A_tb_3364 + 1))
          < m_toy_A_ds_3364[(m_toy_A_i_3361 + 1)]["addend"]
        /\ m_toy_A_ds_3364[(m_toy_A_i_3361 + 1)]["addend"]
          < 2 ^ (m_toy_A_tb_3364 + 1)
        /\ m_toy_A_ds_3364[(m_toy_A_i_3361 + 1)]["power"] >= 0
        /\ (m_toy_A_i_3361 > 0
          => m_toy_A_ds_3364[(m_toy_A_i_3361 - 1 + 1)]["power"]
            >= (m_toy_A_ds_3364[(m_toy_A_i_3361 + 1)]["power"] + m_toy_A_tb_3364)
              + 1))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_room(m_toy_A_bits_3378, m_toy_A_tb_3378) ==
  m_toy_A_bits_3378 \div (m_toy_A_tb_3378 + 1) + 3

(*
  @type: ((Int, Int) => { index: Int, sign: Int });
*)
m_toy_A_combEntry(m_toy_A_tab_3569, m_toy_A_t_3569) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_top == m_toy_A_tab_3569 \div 2 ^ (m_toy_A_t_3569 - 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_low == m_toy_A_tab_3569 % 2 ^ (m_toy_A_t_3569 - 1)
  IN
  IF m_toy_A_top = 1
  THEN [index |-> m_toy_A_low, sign |-> 1]
  ELSE [index |-> (2 ^ (m_toy_A_t_3569 - 1) - 1) - m_toy_A_low, sign |-> -1]

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Int);
*)
m_toy_A_combBit(m_toy_A_x_3485, m_toy_A_i_3485, m_toy_A_j_3485, m_toy_A_k_3485, m_toy_A_t_3485,
m_toy_A_s_3485) ==
  m_toy_A_x_3485
    \div 2
      ^ (m_toy_A_i_3485
        + m_toy_A_s_3485 * (m_toy_A_k_3485 + m_toy_A_j_3485 * m_toy_A_t_3485))
    % 2

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
m_toy_A_combTable(m_toy_A_j_3625, m_toy_A_index_3625, m_toy_A_t_3625, m_toy_A_s_3625) ==
  2 ^ (m_toy_A_s_3625 * (m_toy_A_t_3625 - 1 + m_toy_A_j_3625 * m_toy_A_t_3625))
    + LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA85(m_toy_A_acc_3622, m_toy_A_k_3622) ==
      m_toy_A_acc_3622
        + (2 * (m_toy_A_index_3625 \div 2 ^ m_toy_A_k_3622 % 2) - 1)
          * 2
            ^ (m_toy_A_s_3625
              * (m_toy_A_k_3622 + m_toy_A_j_3625 * m_toy_A_t_3625))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA85, 0, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA84(__quint_var41) == (0 + __quint_var41) - 1
    IN
    MkSeq(((m_toy_A_t_3625 - 1) - 0), __QUINT_LAMBDA84)))

(*
  @type: ((Int) => Int);
*)
m_toy_B_twoAdic(m_toy_B_n_3092) ==
  LET (*
    @type: (({ n: Int, on: Bool, r: Int }, Int) => { n: Int, on: Bool, r: Int });
  *)
  __QUINT_LAMBDA92(m_toy_B_s_3088, m_toy_B_i_3088) ==
    IF m_toy_B_s_3088["on"] /\ m_toy_B_s_3088["n"] % 2 = 0
    THEN [n |-> m_toy_B_s_3088["n"] \div 2,
      r |-> m_toy_B_s_3088["r"] + 1,
      on |-> TRUE]
    ELSE [ m_toy_B_s_3088 EXCEPT !["on"] = FALSE ]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA92, [n |-> m_toy_B_n_3092,
    r |-> 0,
    on |-> m_toy_B_n_3092 /= 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA91(__quint_var45) == (0 + __quint_var45) - 1
  IN
  MkSeq((32 - 0), __QUINT_LAMBDA91)))[
    "r"
  ]

(*
  @type: ((Seq({ addend: Int, power: Int })) => Int);
*)
m_toy_B_valueOf(m_toy_B_ds_3277) ==
  LET (*
    @type: ((Int, { addend: Int, power: Int }) => Int);
  *)
  __QUINT_LAMBDA97(m_toy_B_s_3275, m_toy_B_d_3275) ==
    m_toy_B_s_3275 + m_toy_B_d_3275["addend"] * 2 ^ m_toy_B_d_3275["power"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA97, 0, m_toy_B_ds_3277)

(*
  @type: ((Seq({ addend: Int, power: Int }), Int) => Bool);
*)
m_toy_B_proper(m_toy_B_ds_3364, m_toy_B_tb_3364) ==
  (Len(m_toy_B_ds_3364) = 0 \/ m_toy_B_ds_3364[(0 + 1)]["addend"] > 0)
    /\ (\A m_toy_B_i_3361 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var48 == DOMAIN m_toy_B_ds_3364
    IN
    IF __quint_var48 = {}
    THEN {}
    ELSE (__quint_var48 \union {0}) \ {(Len(m_toy_B_ds_3364))}:
      m_toy_B_ds_3364[(m_toy_B_i_3361 + 1)]["addend"] % 2 /= 0
        /\ -(2 ^ (m_toy_B_tb_3364 + 1))
          < m_toy_B_ds_3364[(m_toy_B_i_3361 + 1)]["addend"]
        /\ m_toy_B_ds_3364[(m_toy_B_i_3361 + 1)]["addend"]
          < 2 ^ (m_toy_B_tb_3364 + 1)
        /\ m_toy_B_ds_3364[(m_toy_B_i_3361 + 1)]["power"] >= 0
        /\ (m_toy_B_i_3361 > 0
          => m_toy_B_ds_3364[(m_toy_B_i_3361 - 1 + 1)]["power"]
            >= (m_toy_B_ds_3364[(m_toy_B_i_3361 + 1)]["power"] + m_toy_B_tb_3364)
              + 1))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_room(m_toy_B_bits_3378, m_toy_B_tb_3378) ==
  m_toy_B_bits_3378 \div (m_toy_B_tb_3378 + 1) + 3

(*
  @type: ((Int, Int) => { index: Int, sign: Int });
*)
m_toy_B_combEntry(m_toy_B_tab_3569, m_toy_B_t_3569) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_top == m_toy_B_tab_3569 \div 2 ^ (m_toy_B_t_3569 - 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_low == m_toy_B_tab_3569 % 2 ^ (m_toy_B_t_3569 - 1)
  IN
  IF m_toy_B_top = 1
  THEN [index |-> m_toy_B_low, sign |-> 1]
  ELSE [index |-> (2 ^ (m_toy_B_t_3569 - 1) - 1) - m_toy_B_low, sign |-> -1]

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Int);
*)
m_toy_B_combBit(m_toy_B_x_3485, m_toy_B_i_3485, m_toy_B_j_3485, m_toy_B_k_3485, m_toy_B_t_3485,
m_toy_B_s_3485) ==
  m_toy_B_x_3485
    \div 2
      ^ (m_toy_B_i_3485
        + m_toy_B_s_3485 * (m_toy_B_k_3485 + m_toy_B_j_3485 * m_toy_B_t_3485))
    % 2

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
m_toy_B_combTable(m_toy_B_j_3625, m_toy_B_index_3625, m_toy_B_t_3625, m_toy_B_s_3625) ==
  2 ^ (m_toy_B_s_3625 * (m_toy_B_t_3625 - 1 + m_toy_B_j_3625 * m_toy_B_t_3625))
    + LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA101(m_toy_B_acc_3622, m_toy_B_k_3622) ==
      m_toy_B_acc_3622
        + (2 * (m_toy_B_index_3625 \div 2 ^ m_toy_B_k_3622 % 2) - 1)
          * 2
            ^ (m_toy_B_s_3625
              * (m_toy_B_k_3622 + m_toy_B_j_3625 * m_toy_B_t_3625))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA101, 0, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA100(__quint_var50) == (0 + __quint_var50) - 1
    IN
    MkSeq(((m_toy_B_t_3625 - 1) - 0), __QUINT_LAMBDA100)))

(*
  @type: ((Int) => Int);
*)
m_toy_C_twoAdic(m_toy_C_n_3092) ==
  LET (*
    @type: (({ n: Int, on: Bool, r: Int }, Int) => { n: Int, on: Bool, r: Int });
  *)
  __QUINT_LAMBDA108(m_toy_C_s_3088, m_toy_C_i_3088) ==
    IF m_toy_C_s_3088["on"] /\ m_toy_C_s_3088["n"] % 2 = 0
    THEN [n |-> m_toy_C_s_3088["n"] \div 2,
      r |-> m_toy_C_s_3088["r"] + 1,
      on |-> TRUE]
    ELSE [ m_toy_C_s_3088 EXCEPT !["on"] = FALSE ]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA108, [n |-> m_toy_C_n_3092,
    r |-> 0,
    on |-> m_toy_C_n_3092 /= 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA107(__quint_var54) == (0 + __quint_var54) - 1
  IN
  MkSeq((32 - 0), __QUINT_LAMBDA107)))[
    "r"
  ]

(*
  @type: ((Seq({ addend: Int, power: Int })) => Int);
*)
m_toy_C_valueOf(m_toy_C_ds_3277) ==
  LET (*
    @type: ((Int, { addend: Int, power: Int }) => Int);
  *)
  __QUINT_LAMBDA113(m_toy_C_s_3275, m_toy_C_d_3275) ==
    m_toy_C_s_3275 + m_toy_C_d_3275["addend"] * 2 ^ m_toy_C_d_3275["power"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA113, 0, m_toy_C_ds_3277)

(*
  @type: ((Seq({ addend: Int, power: Int }), Int) => Bool);
*)
m_toy_C_proper(m_toy_C_ds_3364, m_toy_C_tb_3364) ==
  (Len(m_toy_C_ds_3364) = 0 \/ m_toy_C_ds_3364[(0 + 1)]["addend"] > 0)
    /\ (\A m_toy_C_i_3361 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var57 == DOMAIN m_toy_C_ds_3364
    IN
    IF __quint_var57 = {}
    THEN {}
    ELSE (__quint_var57 \union {0}) \ {(Len(m_toy_C_ds_3364))}:
      m_toy_C_ds_3364[(m_toy_C_i_3361 + 1)]["addend"] % 2 /= 0
        /\ -(2 ^ (m_toy_C_tb_3364 + 1))
          < m_toy_C_ds_3364[(m_toy_C_i_3361 + 1)]["addend"]
        /\ m_toy_C_ds_3364[(m_toy_C_i_3361 + 1)]["addend"]
          < 2 ^ (m_toy_C_tb_3364 + 1)
        /\ m_toy_C_ds_3364[(m_toy_C_i_3361 + 1)]["power"] >= 0
        /\ (m_toy_C_i_3361 > 0
          => m_toy_C_ds_3364[(m_toy_C_i_3361 - 1 + 1)]["power"]
            >= (m_toy_C_ds_3364[(m_toy_C_i_3361 + 1)]["power"] + m_toy_C_tb_3364)
              + 1))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_room(m_toy_C_bits_3378, m_toy_C_tb_3378) ==
  m_toy_C_bits_3378 \div (m_toy_C_tb_3378 + 1) + 3

(*
  @type: ((Int, Int) => { index: Int, sign: Int });
*)
m_toy_C_combEntry(m_toy_C_tab_3569, m_toy_C_t_3569) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_top == m_toy_C_tab_3569 \div 2 ^ (m_toy_C_t_3569 - 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_low == m_toy_C_tab_3569 % 2 ^ (m_toy_C_t_3569 - 1)
  IN
  IF m_toy_C_top = 1
  THEN [index |-> m_toy_C_low, sign |-> 1]
  ELSE [index |-> (2 ^ (m_toy_C_t_3569 - 1) - 1) - m_toy_C_low, sign |-> -1]

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Int);
*)
m_toy_C_combBit(m_toy_C_x_3485, m_toy_C_i_3485, m_toy_C_j_3485, m_toy_C_k_3485, m_toy_C_t_3485,
m_toy_C_s_3485) ==
  m_toy_C_x_3485
    \div 2
      ^ (m_toy_C_i_3485
        + m_toy_C_s_3485 * (m_toy_C_k_3485 + m_toy_C_j_3485 * m_toy_C_t_3485))
    % 2

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
m_toy_C_combTable(m_toy_C_j_3625, m_toy_C_index_3625, m_toy_C_t_3625, m_toy_C_s_3625) ==
  2 ^ (m_toy_C_s_3625 * (m_toy_C_t_3625 - 1 + m_toy_C_j_3625 * m_toy_C_t_3625))
    + LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA117(m_toy_C_acc_3622, m_toy_C_k_3622) ==
      m_toy_C_acc_3622
        + (2 * (m_toy_C_index_3625 \div 2 ^ m_toy_C_k_3622 % 2) - 1)
          * 2
            ^ (m_toy_C_s_3625
              * (m_toy_C_k_3622 + m_toy_C_j_3625 * m_toy_C_t_3625))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA117, 0, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA116(__quint_var59) == (0 + __quint_var59) - 1
    IN
    MkSeq(((m_toy_C_t_3625 - 1) - 0), __QUINT_LAMBDA116)))

(*
  @type: (() => Bool);
*)
inv == holds

(*
  @type: (() => Bool);
*)
init == holds = TRUE

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_SIGN == m_toy_A_SIGN

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_P == m_toy_A_P

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_D == m_toy_A_D

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_PBITS == m_toy_A_PBITS

(*
  @type: (() => Int);
*)
m_toy_A_toy_W_SIGN == m_toy_A_SIGN

(*
  @type: (() => Int);
*)
m_toy_A_toy_W_P == m_toy_A_P

(*
  @type: (() => Int);
*)
m_toy_A_toy_W_D == m_toy_A_D

(*
  @type: (() => Int);
*)
m_toy_A_toy_W_PBITS == m_toy_A_PBITS

(*
  @type: ((Int, Int, Int, Int) => Seq(Int));
*)
m_toy_A_windows(m_toy_A_k_3455, m_toy_A_q_3455, m_toy_A_w_3455, m_toy_A_n_3455) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_x ==
    m_toy_A_adjusted(m_toy_A_k_3455, m_toy_A_q_3455, (m_toy_A_w_3455
      * m_toy_A_n_3455))
  IN
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA10(m_toy_A_l_3452, m_toy_A_j_3452) ==
    Append(m_toy_A_l_3452, (2
      * (m_toy_A_x
        \div 2 ^ (m_toy_A_w_3455 * ((m_toy_A_n_3455 - 1) - m_toy_A_j_3452))
        % 2 ^ m_toy_A_w_3455)
      - (2 ^ m_toy_A_w_3455 - 1)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA10, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA9(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((m_toy_A_n_3455 - 0), __QUINT_LAMBDA9)))

(*
  @type: (() => Int);
*)
m_toy_A_N2 == (m_toy_A_PBITS + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_A_HALF == (m_toy_A_L + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_L == m_toy_A_L

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_SIGN == m_toy_B_SIGN

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_P == m_toy_B_P

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_D == m_toy_B_D

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_PBITS == m_toy_B_PBITS

(*
  @type: (() => Int);
*)
m_toy_B_toy_W_SIGN == m_toy_B_SIGN

(*
  @type: (() => Int);
*)
m_toy_B_toy_W_P == m_toy_B_P

(*
  @type: (() => Int);
*)
m_toy_B_toy_W_D == m_toy_B_D

(*
  @type: (() => Int);
*)
m_toy_B_toy_W_PBITS == m_toy_B_PBITS

(*
  @type: ((Int, Int, Int, Int) => Seq(Int));
*)
m_toy_B_windows(m_toy_B_k_3455, m_toy_B_q_3455, m_toy_B_w_3455, m_toy_B_n_3455) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_x ==
    m_toy_B_adjusted(m_toy_B_k_3455, m_toy_B_q_3455, (m_toy_B_w_3455
      * m_toy_B_n_3455))
  IN
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA27(m_toy_B_l_3452, m_toy_B_j_3452) ==
    Append(m_toy_B_l_3452, (2
      * (m_toy_B_x
        \div 2 ^ (m_toy_B_w_3455 * ((m_toy_B_n_3455 - 1) - m_toy_B_j_3452))
        % 2 ^ m_toy_B_w_3455)
      - (2 ^ m_toy_B_w_3455 - 1)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA27, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA26(__quint_var12) == (0 + __quint_var12) - 1
  IN
  MkSeq((m_toy_B_n_3455 - 0), __QUINT_LAMBDA26)))

(*
  @type: (() => Int);
*)
m_toy_B_N2 == (m_toy_B_PBITS + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_B_HALF == (m_toy_B_L + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_L == m_toy_B_L

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_SIGN == m_toy_C_SIGN

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_P == m_toy_C_P

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_D == m_toy_C_D

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_PBITS == m_toy_C_PBITS

(*
  @type: (() => Int);
*)
m_toy_C_toy_W_SIGN == m_toy_C_SIGN

(*
  @type: (() => Int);
*)
m_toy_C_toy_W_P == m_toy_C_P

(*
  @type: (() => Int);
*)
m_toy_C_toy_W_D == m_toy_C_D

(*
  @type: (() => Int);
*)
m_toy_C_toy_W_PBITS == m_toy_C_PBITS

(*
  @type: ((Int, Int, Int, Int) => Seq(Int));
*)
m_toy_C_windows(m_toy_C_k_3455, m_toy_C_q_3455, m_toy_C_w_3455, m_toy_C_n_3455) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_x ==
    m_toy_C_adjusted(m_toy_C_k_3455, m_toy_C_q_3455, (m_toy_C_w_3455
      * m_toy_C_n_3455))
  IN
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA44(m_toy_C_l_3452, m_toy_C_j_3452) ==
    Append(m_toy_C_l_3452, (2
      * (m_toy_C_x
        \div 2 ^ (m_toy_C_w_3455 * ((m_toy_C_n_3455 - 1) - m_toy_C_j_3452))
        % 2 ^ m_toy_C_w_3455)
      - (2 ^ m_toy_C_w_3455 - 1)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA44, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA43(__quint_var20) == (0 + __quint_var20) - 1
  IN
  MkSeq((m_toy_C_n_3455 - 0), __QUINT_LAMBDA43)))

(*
  @type: (() => Int);
*)
m_toy_C_N2 == (m_toy_C_PBITS + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_C_HALF == (m_toy_C_L + 1) \div 2

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_L == m_toy_C_L

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_GX == m_toy_A_GX

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_GY == m_toy_A_GY

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_shifted(m_toy_A_p_579) ==
  [x |-> (m_toy_A_P - m_toy_A_p_579["x"]) % m_toy_A_P,
    y |-> (m_toy_A_P - m_toy_A_p_579["y"]) % m_toy_A_P,
    z |-> m_toy_A_p_579["z"],
    t |-> m_toy_A_p_579["t"]]

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_GX == m_toy_B_GX

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_GY == m_toy_B_GY

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_shifted(m_toy_B_p_579) ==
  [x |-> (m_toy_B_P - m_toy_B_p_579["x"]) % m_toy_B_P,
    y |-> (m_toy_B_P - m_toy_B_p_579["y"]) % m_toy_B_P,
    z |-> m_toy_B_p_579["z"],
    t |-> m_toy_B_p_579["t"]]

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_GX == m_toy_C_GX

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_GY == m_toy_C_GY

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_shifted(m_toy_C_p_579) ==
  [x |-> (m_toy_C_P - m_toy_C_p_579["x"]) % m_toy_C_P,
    y |-> (m_toy_C_P - m_toy_C_p_579["y"]) % m_toy_C_P,
    z |-> m_toy_C_p_579["z"],
    t |-> m_toy_C_p_579["t"]]

(*
  @type: ((Int, Int, Int) => Seq({ addend: Int, power: Int }));
*)
m_toy_A_wnaf(m_toy_A_k_3254, m_toy_A_tb_3254, m_toy_A_words16_3254) ==
  LET (*@type: (() => Int); *) m_toy_A_w1 == 2 ^ (m_toy_A_tb_3254 + 1) IN
  LET (*
    @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
  *)
  __QUINT_LAMBDA80(m_toy_A_s_3249, m_toy_A_w_3249) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_A_filled ==
      m_toy_A_s_3249["cur"]
        + (IF m_toy_A_w_3249 < m_toy_A_words16_3254
        THEN (m_toy_A_k_3254 \div 2 ^ (16 * m_toy_A_w_3249) % 2 ^ 16) * 2 ^ 16
        ELSE 0)
    IN
    LET (*
      @type: (() => { cur: Int, out: Seq({ addend: Int, power: Int }) });
    *)
    m_toy_A_r ==
      LET (*
        @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
      *)
      __QUINT_LAMBDA79(m_toy_A_z_3231, m_toy_A_j_3231) ==
        IF m_toy_A_z_3231["cur"] % 2 ^ 16 = 0
        THEN m_toy_A_z_3231
        ELSE LET (*
          @type: (() => Int);
        *)
        m_toy_A_pos == m_toy_A_twoAdic(m_toy_A_z_3231["cur"])
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_A_odd == m_toy_A_z_3231["cur"] \div 2 ^ m_toy_A_pos
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_A_delta ==
          (m_toy_A_odd % m_toy_A_w1)
            - (IF m_toy_A_odd \div m_toy_A_w1 % 2 = 1 THEN m_toy_A_w1 ELSE 0)
        IN
        [cur |-> m_toy_A_z_3231["cur"] - m_toy_A_delta * 2 ^ m_toy_A_pos,
          out |->
            <<
              [power |-> m_toy_A_pos + 16 * (m_toy_A_w_3249 - 1),
                addend |-> m_toy_A_delta]
            >>
              \o m_toy_A_z_3231["out"]]
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA79, [cur |-> m_toy_A_filled,
        out |-> m_toy_A_s_3249["out"]], (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA78(__quint_var38) == (0 + __quint_var38) - 1
      IN
      MkSeq((17 - 0), __QUINT_LAMBDA78)))
    IN
    [cur |-> (m_toy_A_r)["cur"] \div 2 ^ 16, out |-> (m_toy_A_r)["out"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA80, [cur |-> m_toy_A_k_3254 % 2 ^ 16,
    out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA77(__quint_var37) == (1 + __quint_var37) - 1
  IN
  MkSeq(((m_toy_A_words16_3254 + 2) - 1), __QUINT_LAMBDA77)))[
    "out"
  ]

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_A_combDigit(m_toy_A_x_3519, m_toy_A_i_3519, m_toy_A_j_3519, m_toy_A_t_3519,
m_toy_A_s_3519) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA83(m_toy_A_acc_3517, m_toy_A_k_3517) ==
    m_toy_A_acc_3517
      + m_toy_A_combBit(m_toy_A_x_3519, m_toy_A_i_3519, m_toy_A_j_3519, m_toy_A_k_3517,
      m_toy_A_t_3519, m_toy_A_s_3519)
        * 2 ^ m_toy_A_k_3517
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA83, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA82(__quint_var40) == (0 + __quint_var40) - 1
  IN
  MkSeq((m_toy_A_t_3519 - 0), __QUINT_LAMBDA82)))

(*
  @type: ((Int, Int, Int) => Seq({ addend: Int, power: Int }));
*)
m_toy_B_wnaf(m_toy_B_k_3254, m_toy_B_tb_3254, m_toy_B_words16_3254) ==
  LET (*@type: (() => Int); *) m_toy_B_w1 == 2 ^ (m_toy_B_tb_3254 + 1) IN
  LET (*
    @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
  *)
  __QUINT_LAMBDA96(m_toy_B_s_3249, m_toy_B_w_3249) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_B_filled ==
      m_toy_B_s_3249["cur"]
        + (IF m_toy_B_w_3249 < m_toy_B_words16_3254
        THEN (m_toy_B_k_3254 \div 2 ^ (16 * m_toy_B_w_3249) % 2 ^ 16) * 2 ^ 16
        ELSE 0)
    IN
    LET (*
      @type: (() => { cur: Int, out: Seq({ addend: Int, power: Int }) });
    *)
    m_toy_B_r ==
      LET (*
        @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
      *)
      __QUINT_LAMBDA95(m_toy_B_z_3231, m_toy_B_j_3231) ==
        IF m_toy_B_z_3231["cur"] % 2 ^ 16 = 0
        THEN m_toy_B_z_3231
        ELSE LET (*
          @type: (() => Int);
        *)
        m_toy_B_pos == m_toy_B_twoAdic(m_toy_B_z_3231["cur"])
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_B_odd == m_toy_B_z_3231["cur"] \div 2 ^ m_toy_B_pos
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_B_delta ==
          (m_toy_B_odd % m_toy_B_w1)
            - (IF m_toy_B_odd \div m_toy_B_w1 % 2 = 1 THEN m_toy_B_w1 ELSE 0)
        IN
        [cur |-> m_toy_B_z_3231["cur"] - m_toy_B_delta * 2 ^ m_toy_B_pos,
          out |->
            <<
              [power |-> m_toy_B_pos + 16 * (m_toy_B_w_3249 - 1),
                addend |-> m_toy_B_delta]
            >>
              \o m_toy_B_z_3231["out"]]
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA95, [cur |-> m_toy_B_filled,
        out |-> m_toy_B_s_3249["out"]], (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA94(__quint_var47) == (0 + __quint_var47) - 1
      IN
      MkSeq((17 - 0), __QUINT_LAMBDA94)))
    IN
    [cur |-> (m_toy_B_r)["cur"] \div 2 ^ 16, out |-> (m_toy_B_r)["out"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA96, [cur |-> m_toy_B_k_3254 % 2 ^ 16,
    out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA93(__quint_var46) == (1 + __quint_var46) - 1
  IN
  MkSeq(((m_toy_B_words16_3254 + 2) - 1), __QUINT_LAMBDA93)))[
    "out"
  ]

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_B_combDigit(m_toy_B_x_3519, m_toy_B_i_3519, m_toy_B_j_3519, m_toy_B_t_3519,
m_toy_B_s_3519) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA99(m_toy_B_acc_3517, m_toy_B_k_3517) ==
    m_toy_B_acc_3517
      + m_toy_B_combBit(m_toy_B_x_3519, m_toy_B_i_3519, m_toy_B_j_3519, m_toy_B_k_3517,
      m_toy_B_t_3519, m_toy_B_s_3519)
        * 2 ^ m_toy_B_k_3517
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA99, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA98(__quint_var49) == (0 + __quint_var49) - 1
  IN
  MkSeq((m_toy_B_t_3519 - 0), __QUINT_LAMBDA98)))

(*
  @type: ((Int, Int, Int) => Seq({ addend: Int, power: Int }));
*)
m_toy_C_wnaf(m_toy_C_k_3254, m_toy_C_tb_3254, m_toy_C_words16_3254) ==
  LET (*@type: (() => Int); *) m_toy_C_w1 == 2 ^ (m_toy_C_tb_3254 + 1) IN
  LET (*
    @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
  *)
  __QUINT_LAMBDA112(m_toy_C_s_3249, m_toy_C_w_3249) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_C_filled ==
      m_toy_C_s_3249["cur"]
        + (IF m_toy_C_w_3249 < m_toy_C_words16_3254
        THEN (m_toy_C_k_3254 \div 2 ^ (16 * m_toy_C_w_3249) % 2 ^ 16) * 2 ^ 16
        ELSE 0)
    IN
    LET (*
      @type: (() => { cur: Int, out: Seq({ addend: Int, power: Int }) });
    *)
    m_toy_C_r ==
      LET (*
        @type: (({ cur: Int, out: Seq({ addend: Int, power: Int }) }, Int) => { cur: Int, out: Seq({ addend: Int, power: Int }) });
      *)
      __QUINT_LAMBDA111(m_toy_C_z_3231, m_toy_C_j_3231) ==
        IF m_toy_C_z_3231["cur"] % 2 ^ 16 = 0
        THEN m_toy_C_z_3231
        ELSE LET (*
          @type: (() => Int);
        *)
        m_toy_C_pos == m_toy_C_twoAdic(m_toy_C_z_3231["cur"])
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_C_odd == m_toy_C_z_3231["cur"] \div 2 ^ m_toy_C_pos
        IN
        LET (*
          @type: (() => Int);
        *)
        m_toy_C_delta ==
          (m_toy_C_odd % m_toy_C_w1)
            - (IF m_toy_C_odd \div m_toy_C_w1 % 2 = 1 THEN m_toy_C_w1 ELSE 0)
        IN
        [cur |-> m_toy_C_z_3231["cur"] - m_toy_C_delta * 2 ^ m_toy_C_pos,
          out |->
            <<
              [power |-> m_toy_C_pos + 16 * (m_toy_C_w_3249 - 1),
                addend |-> m_toy_C_delta]
            >>
              \o m_toy_C_z_3231["out"]]
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA111, [cur |-> m_toy_C_filled,
        out |-> m_toy_C_s_3249["out"]], (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA110(__quint_var56) == (0 + __quint_var56) - 1
      IN
      MkSeq((17 - 0), __QUINT_LAMBDA110)))
    IN
    [cur |-> (m_toy_C_r)["cur"] \div 2 ^ 16, out |-> (m_toy_C_r)["out"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA112, [cur |-> m_toy_C_k_3254 % 2 ^ 16,
    out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA109(__quint_var55) == (1 + __quint_var55) - 1
  IN
  MkSeq(((m_toy_C_words16_3254 + 2) - 1), __QUINT_LAMBDA109)))[
    "out"
  ]

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_C_combDigit(m_toy_C_x_3519, m_toy_C_i_3519, m_toy_C_j_3519, m_toy_C_t_3519,
m_toy_C_s_3519) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA115(m_toy_C_acc_3517, m_toy_C_k_3517) ==
    m_toy_C_acc_3517
      + m_toy_C_combBit(m_toy_C_x_3519, m_toy_C_i_3519, m_toy_C_j_3519, m_toy_C_k_3517,
      m_toy_C_t_3519, m_toy_C_s_3519)
        * 2 ^ m_toy_C_k_3517
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA115, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA114(__quint_var58) == (0 + __quint_var58) - 1
  IN
  MkSeq((m_toy_C_t_3519 - 0), __QUINT_LAMBDA114)))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_E_fsub(m_toy_A_toy_E_a_1100, m_toy_A_toy_E_b_1100) ==
  (m_toy_A_toy_E_a_1100 - m_toy_A_toy_E_b_1100 + m_toy_A_toy_E_P)
    % m_toy_A_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_E_fmul(m_toy_A_toy_E_a_1086, m_toy_A_toy_E_b_1086) ==
  m_toy_A_toy_E_a_1086 * m_toy_A_toy_E_b_1086 % m_toy_A_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_E_fpow(m_toy_A_toy_E_b_1183, m_toy_A_toy_E_e_1183) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA1(m_toy_A_toy_E_s_1179, m_toy_A_toy_E_i_1179) ==
    [e |-> m_toy_A_toy_E_s_1179["e"] \div 2,
      r |->
        IF m_toy_A_toy_E_s_1179["e"] % 2 = 1
        THEN m_toy_A_toy_E_s_1179["r"] * m_toy_A_toy_E_s_1179["b"]
          % m_toy_A_toy_E_P
        ELSE m_toy_A_toy_E_s_1179["r"],
      b |->
        m_toy_A_toy_E_s_1179["b"] * m_toy_A_toy_E_s_1179["b"] % m_toy_A_toy_E_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, [e |-> m_toy_A_toy_E_e_1183,
    r |-> 1,
    b |-> m_toy_A_toy_E_b_1183], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((m_toy_A_toy_E_PBITS - 0), __QUINT_LAMBDA0)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_W_sub(m_toy_A_toy_W_a_2123, m_toy_A_toy_W_b_2123) ==
  (m_toy_A_toy_W_a_2123 - m_toy_A_toy_W_b_2123 + m_toy_A_toy_W_P)
    % m_toy_A_toy_W_P

(*
  @type: ((Int) => Int);
*)
m_toy_A_toy_W_sq(m_toy_A_toy_W_a_2109) ==
  m_toy_A_toy_W_a_2109 * m_toy_A_toy_W_a_2109 % m_toy_A_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_W_m(m_toy_A_toy_W_a_2099, m_toy_A_toy_W_b_2099) ==
  m_toy_A_toy_W_a_2099 * m_toy_A_toy_W_b_2099 % m_toy_A_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_W_pw(m_toy_A_toy_W_b_2196, m_toy_A_toy_W_e_2196) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA3(m_toy_A_toy_W_s_2192, m_toy_A_toy_W_i_2192) ==
    [e |-> m_toy_A_toy_W_s_2192["e"] \div 2,
      r |->
        IF m_toy_A_toy_W_s_2192["e"] % 2 = 1
        THEN m_toy_A_toy_W_s_2192["r"] * m_toy_A_toy_W_s_2192["b"]
          % m_toy_A_toy_W_P
        ELSE m_toy_A_toy_W_s_2192["r"],
      b |->
        m_toy_A_toy_W_s_2192["b"] * m_toy_A_toy_W_s_2192["b"] % m_toy_A_toy_W_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, [e |-> m_toy_A_toy_W_e_2196,
    r |-> 1,
    b |-> m_toy_A_toy_W_b_2196], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((m_toy_A_toy_W_PBITS - 0), __QUINT_LAMBDA2)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_W_add(m_toy_A_toy_W_a_2135, m_toy_A_toy_W_b_2135) ==
  (m_toy_A_toy_W_a_2135 + m_toy_A_toy_W_b_2135) % m_toy_A_toy_W_P

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_A_toy_W_negNiels(m_toy_A_toy_W_q_2399) ==
  [a |-> m_toy_A_toy_W_q_2399["b"],
    b |-> m_toy_A_toy_W_q_2399["a"],
    c |-> (m_toy_A_toy_W_P - m_toy_A_toy_W_q_2399["c"]) % m_toy_A_toy_W_P,
    z |-> m_toy_A_toy_W_q_2399["z"]]

(*
  @type: (() => Int);
*)
m_toy_A_FOURTH == m_toy_A_HALF * m_toy_A_HALF % m_toy_A_L

(*
  @type: ((Int, Int) => Int);
*)
m_toy_A_toy_E_fadd(m_toy_A_toy_E_a_1112, m_toy_A_toy_E_b_1112) ==
  (m_toy_A_toy_E_a_1112 + m_toy_A_toy_E_b_1112) % m_toy_A_toy_E_P

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_padd(m_toy_A_toy_E_p_1440, m_toy_A_toy_E_q_1440) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_a ==
    m_toy_A_toy_E_p_1440["z"] * m_toy_A_toy_E_q_1440["z"] % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_b == m_toy_A_toy_E_a * m_toy_A_toy_E_a % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_c ==
    m_toy_A_toy_E_p_1440["x"] * m_toy_A_toy_E_q_1440["x"] % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_d ==
    m_toy_A_toy_E_p_1440["y"] * m_toy_A_toy_E_q_1440["y"] % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_e ==
    (m_toy_A_toy_E_D * m_toy_A_toy_E_c % m_toy_A_toy_E_P) * m_toy_A_toy_E_d
      % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_f ==
    (m_toy_A_toy_E_b - m_toy_A_toy_E_e + m_toy_A_toy_E_P) % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_g == (m_toy_A_toy_E_b + m_toy_A_toy_E_e) % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_h ==
    (m_toy_A_toy_E_p_1440["x"] + m_toy_A_toy_E_p_1440["y"])
      * (m_toy_A_toy_E_q_1440["x"] + m_toy_A_toy_E_q_1440["y"])
      % m_toy_A_toy_E_P
  IN
  [x |->
      (m_toy_A_toy_E_a * m_toy_A_toy_E_f % m_toy_A_toy_E_P)
        * (((m_toy_A_toy_E_h - m_toy_A_toy_E_c) - m_toy_A_toy_E_d
          + 2 * m_toy_A_toy_E_P)
          % m_toy_A_toy_E_P)
        % m_toy_A_toy_E_P,
    y |->
      (m_toy_A_toy_E_a * m_toy_A_toy_E_g % m_toy_A_toy_E_P)
        * ((m_toy_A_toy_E_d - m_toy_A_toy_E_c + m_toy_A_toy_E_P)
          % m_toy_A_toy_E_P)
        % m_toy_A_toy_E_P,
    z |-> m_toy_A_toy_E_f * m_toy_A_toy_E_g % m_toy_A_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_NIBBLES == (m_toy_A_toy_E_PBITS + 3) \div 4

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_pdbl(m_toy_A_toy_E_p_1600) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_c ==
    m_toy_A_toy_E_p_1600["x"] * m_toy_A_toy_E_p_1600["x"] % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_d ==
    m_toy_A_toy_E_p_1600["y"] * m_toy_A_toy_E_p_1600["y"] % m_toy_A_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_e == m_toy_A_toy_E_c + m_toy_A_toy_E_d
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_j ==
    m_toy_A_toy_E_e
      + 2
        * (m_toy_A_toy_E_P
          - (m_toy_A_toy_E_p_1600["z"] * m_toy_A_toy_E_p_1600["z"]
            % m_toy_A_toy_E_P))
  IN
  [x |->
      (((m_toy_A_toy_E_p_1600["x"] + m_toy_A_toy_E_p_1600["y"])
        * (m_toy_A_toy_E_p_1600["x"] + m_toy_A_toy_E_p_1600["y"])
        + 2 * m_toy_A_toy_E_P)
        - m_toy_A_toy_E_e)
        * m_toy_A_toy_E_j
        % m_toy_A_toy_E_P,
    y |->
      m_toy_A_toy_E_e * ((m_toy_A_toy_E_P + m_toy_A_toy_E_c) - m_toy_A_toy_E_d)
        % m_toy_A_toy_E_P,
    z |-> m_toy_A_toy_E_e * m_toy_A_toy_E_j % m_toy_A_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_A_toy_E_QUARTER ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA16(m_toy_A_toy_E_acc_2028, m_toy_A_toy_E_j_2028) ==
    IF (m_toy_A_toy_E_j_2028 * m_toy_A_toy_E_L + 1) % 4 = 0
    THEN (m_toy_A_toy_E_j_2028 * m_toy_A_toy_E_L + 1) \div 4
    ELSE m_toy_A_toy_E_acc_2028
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA16, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA15(__quint_var7) == (1 + __quint_var7) - 1
  IN
  MkSeq((5 - 1), __QUINT_LAMBDA15)))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_E_fsub(m_toy_B_toy_E_a_1100, m_toy_B_toy_E_b_1100) ==
  (m_toy_B_toy_E_a_1100 - m_toy_B_toy_E_b_1100 + m_toy_B_toy_E_P)
    % m_toy_B_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_E_fmul(m_toy_B_toy_E_a_1086, m_toy_B_toy_E_b_1086) ==
  m_toy_B_toy_E_a_1086 * m_toy_B_toy_E_b_1086 % m_toy_B_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_E_fpow(m_toy_B_toy_E_b_1183, m_toy_B_toy_E_e_1183) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA18(m_toy_B_toy_E_s_1179, m_toy_B_toy_E_i_1179) ==
    [e |-> m_toy_B_toy_E_s_1179["e"] \div 2,
      r |->
        IF m_toy_B_toy_E_s_1179["e"] % 2 = 1
        THEN m_toy_B_toy_E_s_1179["r"] * m_toy_B_toy_E_s_1179["b"]
          % m_toy_B_toy_E_P
        ELSE m_toy_B_toy_E_s_1179["r"],
      b |->
        m_toy_B_toy_E_s_1179["b"] * m_toy_B_toy_E_s_1179["b"] % m_toy_B_toy_E_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA18, [e |-> m_toy_B_toy_E_e_1183,
    r |-> 1,
    b |-> m_toy_B_toy_E_b_1183], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA17(__quint_var8) == (0 + __quint_var8) - 1
  IN
  MkSeq((m_toy_B_toy_E_PBITS - 0), __QUINT_LAMBDA17)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_W_sub(m_toy_B_toy_W_a_2123, m_toy_B_toy_W_b_2123) ==
  (m_toy_B_toy_W_a_2123 - m_toy_B_toy_W_b_2123 + m_toy_B_toy_W_P)
    % m_toy_B_toy_W_P

(*
  @type: ((Int) => Int);
*)
m_toy_B_toy_W_sq(m_toy_B_toy_W_a_2109) ==
  m_toy_B_toy_W_a_2109 * m_toy_B_toy_W_a_2109 % m_toy_B_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_W_m(m_toy_B_toy_W_a_2099, m_toy_B_toy_W_b_2099) ==
  m_toy_B_toy_W_a_2099 * m_toy_B_toy_W_b_2099 % m_toy_B_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_W_pw(m_toy_B_toy_W_b_2196, m_toy_B_toy_W_e_2196) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA20(m_toy_B_toy_W_s_2192, m_toy_B_toy_W_i_2192) ==
    [e |-> m_toy_B_toy_W_s_2192["e"] \div 2,
      r |->
        IF m_toy_B_toy_W_s_2192["e"] % 2 = 1
        THEN m_toy_B_toy_W_s_2192["r"] * m_toy_B_toy_W_s_2192["b"]
          % m_toy_B_toy_W_P
        ELSE m_toy_B_toy_W_s_2192["r"],
      b |->
        m_toy_B_toy_W_s_2192["b"] * m_toy_B_toy_W_s_2192["b"] % m_toy_B_toy_W_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA20, [e |-> m_toy_B_toy_W_e_2196,
    r |-> 1,
    b |-> m_toy_B_toy_W_b_2196], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA19(__quint_var9) == (0 + __quint_var9) - 1
  IN
  MkSeq((m_toy_B_toy_W_PBITS - 0), __QUINT_LAMBDA19)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_W_add(m_toy_B_toy_W_a_2135, m_toy_B_toy_W_b_2135) ==
  (m_toy_B_toy_W_a_2135 + m_toy_B_toy_W_b_2135) % m_toy_B_toy_W_P

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_B_toy_W_negNiels(m_toy_B_toy_W_q_2399) ==
  [a |-> m_toy_B_toy_W_q_2399["b"],
    b |-> m_toy_B_toy_W_q_2399["a"],
    c |-> (m_toy_B_toy_W_P - m_toy_B_toy_W_q_2399["c"]) % m_toy_B_toy_W_P,
    z |-> m_toy_B_toy_W_q_2399["z"]]

(*
  @type: (() => Int);
*)
m_toy_B_FOURTH == m_toy_B_HALF * m_toy_B_HALF % m_toy_B_L

(*
  @type: ((Int, Int) => Int);
*)
m_toy_B_toy_E_fadd(m_toy_B_toy_E_a_1112, m_toy_B_toy_E_b_1112) ==
  (m_toy_B_toy_E_a_1112 + m_toy_B_toy_E_b_1112) % m_toy_B_toy_E_P

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_padd(m_toy_B_toy_E_p_1440, m_toy_B_toy_E_q_1440) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_a ==
    m_toy_B_toy_E_p_1440["z"] * m_toy_B_toy_E_q_1440["z"] % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_b == m_toy_B_toy_E_a * m_toy_B_toy_E_a % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_c ==
    m_toy_B_toy_E_p_1440["x"] * m_toy_B_toy_E_q_1440["x"] % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_d ==
    m_toy_B_toy_E_p_1440["y"] * m_toy_B_toy_E_q_1440["y"] % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_e ==
    (m_toy_B_toy_E_D * m_toy_B_toy_E_c % m_toy_B_toy_E_P) * m_toy_B_toy_E_d
      % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_f ==
    (m_toy_B_toy_E_b - m_toy_B_toy_E_e + m_toy_B_toy_E_P) % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_g == (m_toy_B_toy_E_b + m_toy_B_toy_E_e) % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_h ==
    (m_toy_B_toy_E_p_1440["x"] + m_toy_B_toy_E_p_1440["y"])
      * (m_toy_B_toy_E_q_1440["x"] + m_toy_B_toy_E_q_1440["y"])
      % m_toy_B_toy_E_P
  IN
  [x |->
      (m_toy_B_toy_E_a * m_toy_B_toy_E_f % m_toy_B_toy_E_P)
        * (((m_toy_B_toy_E_h - m_toy_B_toy_E_c) - m_toy_B_toy_E_d
          + 2 * m_toy_B_toy_E_P)
          % m_toy_B_toy_E_P)
        % m_toy_B_toy_E_P,
    y |->
      (m_toy_B_toy_E_a * m_toy_B_toy_E_g % m_toy_B_toy_E_P)
        * ((m_toy_B_toy_E_d - m_toy_B_toy_E_c + m_toy_B_toy_E_P)
          % m_toy_B_toy_E_P)
        % m_toy_B_toy_E_P,
    z |-> m_toy_B_toy_E_f * m_toy_B_toy_E_g % m_toy_B_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_NIBBLES == (m_toy_B_toy_E_PBITS + 3) \div 4

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_pdbl(m_toy_B_toy_E_p_1600) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_c ==
    m_toy_B_toy_E_p_1600["x"] * m_toy_B_toy_E_p_1600["x"] % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_d ==
    m_toy_B_toy_E_p_1600["y"] * m_toy_B_toy_E_p_1600["y"] % m_toy_B_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_e == m_toy_B_toy_E_c + m_toy_B_toy_E_d
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_j ==
    m_toy_B_toy_E_e
      + 2
        * (m_toy_B_toy_E_P
          - (m_toy_B_toy_E_p_1600["z"] * m_toy_B_toy_E_p_1600["z"]
            % m_toy_B_toy_E_P))
  IN
  [x |->
      (((m_toy_B_toy_E_p_1600["x"] + m_toy_B_toy_E_p_1600["y"])
        * (m_toy_B_toy_E_p_1600["x"] + m_toy_B_toy_E_p_1600["y"])
        + 2 * m_toy_B_toy_E_P)
        - m_toy_B_toy_E_e)
        * m_toy_B_toy_E_j
        % m_toy_B_toy_E_P,
    y |->
      m_toy_B_toy_E_e * ((m_toy_B_toy_E_P + m_toy_B_toy_E_c) - m_toy_B_toy_E_d)
        % m_toy_B_toy_E_P,
    z |-> m_toy_B_toy_E_e * m_toy_B_toy_E_j % m_toy_B_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_B_toy_E_QUARTER ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA33(m_toy_B_toy_E_acc_2028, m_toy_B_toy_E_j_2028) ==
    IF (m_toy_B_toy_E_j_2028 * m_toy_B_toy_E_L + 1) % 4 = 0
    THEN (m_toy_B_toy_E_j_2028 * m_toy_B_toy_E_L + 1) \div 4
    ELSE m_toy_B_toy_E_acc_2028
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA33, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA32(__quint_var15) == (1 + __quint_var15) - 1
  IN
  MkSeq((5 - 1), __QUINT_LAMBDA32)))

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_E_fsub(m_toy_C_toy_E_a_1100, m_toy_C_toy_E_b_1100) ==
  (m_toy_C_toy_E_a_1100 - m_toy_C_toy_E_b_1100 + m_toy_C_toy_E_P)
    % m_toy_C_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_E_fmul(m_toy_C_toy_E_a_1086, m_toy_C_toy_E_b_1086) ==
  m_toy_C_toy_E_a_1086 * m_toy_C_toy_E_b_1086 % m_toy_C_toy_E_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_E_fpow(m_toy_C_toy_E_b_1183, m_toy_C_toy_E_e_1183) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA35(m_toy_C_toy_E_s_1179, m_toy_C_toy_E_i_1179) ==
    [e |-> m_toy_C_toy_E_s_1179["e"] \div 2,
      r |->
        IF m_toy_C_toy_E_s_1179["e"] % 2 = 1
        THEN m_toy_C_toy_E_s_1179["r"] * m_toy_C_toy_E_s_1179["b"]
          % m_toy_C_toy_E_P
        ELSE m_toy_C_toy_E_s_1179["r"],
      b |->
        m_toy_C_toy_E_s_1179["b"] * m_toy_C_toy_E_s_1179["b"] % m_toy_C_toy_E_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA35, [e |-> m_toy_C_toy_E_e_1183,
    r |-> 1,
    b |-> m_toy_C_toy_E_b_1183], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA34(__quint_var16) == (0 + __quint_var16) - 1
  IN
  MkSeq((m_toy_C_toy_E_PBITS - 0), __QUINT_LAMBDA34)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_W_sub(m_toy_C_toy_W_a_2123, m_toy_C_toy_W_b_2123) ==
  (m_toy_C_toy_W_a_2123 - m_toy_C_toy_W_b_2123 + m_toy_C_toy_W_P)
    % m_toy_C_toy_W_P

(*
  @type: ((Int) => Int);
*)
m_toy_C_toy_W_sq(m_toy_C_toy_W_a_2109) ==
  m_toy_C_toy_W_a_2109 * m_toy_C_toy_W_a_2109 % m_toy_C_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_W_m(m_toy_C_toy_W_a_2099, m_toy_C_toy_W_b_2099) ==
  m_toy_C_toy_W_a_2099 * m_toy_C_toy_W_b_2099 % m_toy_C_toy_W_P

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_W_pw(m_toy_C_toy_W_b_2196, m_toy_C_toy_W_e_2196) ==
  LET (*
    @type: (({ b: Int, e: Int, r: Int }, Int) => { b: Int, e: Int, r: Int });
  *)
  __QUINT_LAMBDA37(m_toy_C_toy_W_s_2192, m_toy_C_toy_W_i_2192) ==
    [e |-> m_toy_C_toy_W_s_2192["e"] \div 2,
      r |->
        IF m_toy_C_toy_W_s_2192["e"] % 2 = 1
        THEN m_toy_C_toy_W_s_2192["r"] * m_toy_C_toy_W_s_2192["b"]
          % m_toy_C_toy_W_P
        ELSE m_toy_C_toy_W_s_2192["r"],
      b |->
        m_toy_C_toy_W_s_2192["b"] * m_toy_C_toy_W_s_2192["b"] % m_toy_C_toy_W_P]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA37, [e |-> m_toy_C_toy_W_e_2196,
    r |-> 1,
    b |-> m_toy_C_toy_W_b_2196], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA36(__quint_var17) == (0 + __quint_var17) - 1
  IN
  MkSeq((m_toy_C_toy_W_PBITS - 0), __QUINT_LAMBDA36)))[
    "r"
  ]

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_W_add(m_toy_C_toy_W_a_2135, m_toy_C_toy_W_b_2135) ==
  (m_toy_C_toy_W_a_2135 + m_toy_C_toy_W_b_2135) % m_toy_C_toy_W_P

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_C_toy_W_negNiels(m_toy_C_toy_W_q_2399) ==
  [a |-> m_toy_C_toy_W_q_2399["b"],
    b |-> m_toy_C_toy_W_q_2399["a"],
    c |-> (m_toy_C_toy_W_P - m_toy_C_toy_W_q_2399["c"]) % m_toy_C_toy_W_P,
    z |-> m_toy_C_toy_W_q_2399["z"]]

(*
  @type: (() => Int);
*)
m_toy_C_FOURTH == m_toy_C_HALF * m_toy_C_HALF % m_toy_C_L

(*
  @type: ((Int, Int) => Int);
*)
m_toy_C_toy_E_fadd(m_toy_C_toy_E_a_1112, m_toy_C_toy_E_b_1112) ==
  (m_toy_C_toy_E_a_1112 + m_toy_C_toy_E_b_1112) % m_toy_C_toy_E_P

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_padd(m_toy_C_toy_E_p_1440, m_toy_C_toy_E_q_1440) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_a ==
    m_toy_C_toy_E_p_1440["z"] * m_toy_C_toy_E_q_1440["z"] % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_b == m_toy_C_toy_E_a * m_toy_C_toy_E_a % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_c ==
    m_toy_C_toy_E_p_1440["x"] * m_toy_C_toy_E_q_1440["x"] % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_d ==
    m_toy_C_toy_E_p_1440["y"] * m_toy_C_toy_E_q_1440["y"] % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_e ==
    (m_toy_C_toy_E_D * m_toy_C_toy_E_c % m_toy_C_toy_E_P) * m_toy_C_toy_E_d
      % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_f ==
    (m_toy_C_toy_E_b - m_toy_C_toy_E_e + m_toy_C_toy_E_P) % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_g == (m_toy_C_toy_E_b + m_toy_C_toy_E_e) % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_h ==
    (m_toy_C_toy_E_p_1440["x"] + m_toy_C_toy_E_p_1440["y"])
      * (m_toy_C_toy_E_q_1440["x"] + m_toy_C_toy_E_q_1440["y"])
      % m_toy_C_toy_E_P
  IN
  [x |->
      (m_toy_C_toy_E_a * m_toy_C_toy_E_f % m_toy_C_toy_E_P)
        * (((m_toy_C_toy_E_h - m_toy_C_toy_E_c) - m_toy_C_toy_E_d
          + 2 * m_toy_C_toy_E_P)
          % m_toy_C_toy_E_P)
        % m_toy_C_toy_E_P,
    y |->
      (m_toy_C_toy_E_a * m_toy_C_toy_E_g % m_toy_C_toy_E_P)
        * ((m_toy_C_toy_E_d - m_toy_C_toy_E_c + m_toy_C_toy_E_P)
          % m_toy_C_toy_E_P)
        % m_toy_C_toy_E_P,
    z |-> m_toy_C_toy_E_f * m_toy_C_toy_E_g % m_toy_C_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_NIBBLES == (m_toy_C_toy_E_PBITS + 3) \div 4

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_pdbl(m_toy_C_toy_E_p_1600) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_c ==
    m_toy_C_toy_E_p_1600["x"] * m_toy_C_toy_E_p_1600["x"] % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_d ==
    m_toy_C_toy_E_p_1600["y"] * m_toy_C_toy_E_p_1600["y"] % m_toy_C_toy_E_P
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_e == m_toy_C_toy_E_c + m_toy_C_toy_E_d
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_j ==
    m_toy_C_toy_E_e
      + 2
        * (m_toy_C_toy_E_P
          - (m_toy_C_toy_E_p_1600["z"] * m_toy_C_toy_E_p_1600["z"]
            % m_toy_C_toy_E_P))
  IN
  [x |->
      (((m_toy_C_toy_E_p_1600["x"] + m_toy_C_toy_E_p_1600["y"])
        * (m_toy_C_toy_E_p_1600["x"] + m_toy_C_toy_E_p_1600["y"])
        + 2 * m_toy_C_toy_E_P)
        - m_toy_C_toy_E_e)
        * m_toy_C_toy_E_j
        % m_toy_C_toy_E_P,
    y |->
      m_toy_C_toy_E_e * ((m_toy_C_toy_E_P + m_toy_C_toy_E_c) - m_toy_C_toy_E_d)
        % m_toy_C_toy_E_P,
    z |-> m_toy_C_toy_E_e * m_toy_C_toy_E_j % m_toy_C_toy_E_P]

(*
  @type: (() => Int);
*)
m_toy_C_toy_E_QUARTER ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA50(m_toy_C_toy_E_acc_2028, m_toy_C_toy_E_j_2028) ==
    IF (m_toy_C_toy_E_j_2028 * m_toy_C_toy_E_L + 1) % 4 = 0
    THEN (m_toy_C_toy_E_j_2028 * m_toy_C_toy_E_L + 1) \div 4
    ELSE m_toy_C_toy_E_acc_2028
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA50, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA49(__quint_var23) == (1 + __quint_var23) - 1
  IN
  MkSeq((5 - 1), __QUINT_LAMBDA49)))

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_G == [x |-> m_toy_A_toy_E_GX, y |-> m_toy_A_toy_E_GY, z |-> 1]

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_T2 == [x |-> 0, y |-> m_toy_A_toy_E_P - 1, z |-> 1]

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_A_toy_E_peq(m_toy_A_toy_E_p_1508, m_toy_A_toy_E_q_1508) ==
  m_toy_A_toy_E_p_1508["x"] * m_toy_A_toy_E_q_1508["z"] % m_toy_A_toy_E_P
      = m_toy_A_toy_E_q_1508["x"] * m_toy_A_toy_E_p_1508["z"] % m_toy_A_toy_E_P
    /\ m_toy_A_toy_E_p_1508["y"] * m_toy_A_toy_E_q_1508["z"] % m_toy_A_toy_E_P
      = m_toy_A_toy_E_q_1508["y"] * m_toy_A_toy_E_p_1508["z"] % m_toy_A_toy_E_P

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_G == [x |-> m_toy_B_toy_E_GX, y |-> m_toy_B_toy_E_GY, z |-> 1]

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_T2 == [x |-> 0, y |-> m_toy_B_toy_E_P - 1, z |-> 1]

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_B_toy_E_peq(m_toy_B_toy_E_p_1508, m_toy_B_toy_E_q_1508) ==
  m_toy_B_toy_E_p_1508["x"] * m_toy_B_toy_E_q_1508["z"] % m_toy_B_toy_E_P
      = m_toy_B_toy_E_q_1508["x"] * m_toy_B_toy_E_p_1508["z"] % m_toy_B_toy_E_P
    /\ m_toy_B_toy_E_p_1508["y"] * m_toy_B_toy_E_q_1508["z"] % m_toy_B_toy_E_P
      = m_toy_B_toy_E_q_1508["y"] * m_toy_B_toy_E_p_1508["z"] % m_toy_B_toy_E_P

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_G == [x |-> m_toy_C_toy_E_GX, y |-> m_toy_C_toy_E_GY, z |-> 1]

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_T2 == [x |-> 0, y |-> m_toy_C_toy_E_P - 1, z |-> 1]

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_C_toy_E_peq(m_toy_C_toy_E_p_1508, m_toy_C_toy_E_q_1508) ==
  m_toy_C_toy_E_p_1508["x"] * m_toy_C_toy_E_q_1508["z"] % m_toy_C_toy_E_P
      = m_toy_C_toy_E_q_1508["x"] * m_toy_C_toy_E_p_1508["z"] % m_toy_C_toy_E_P
    /\ m_toy_C_toy_E_p_1508["y"] * m_toy_C_toy_E_q_1508["z"] % m_toy_C_toy_E_P
      = m_toy_C_toy_E_q_1508["y"] * m_toy_C_toy_E_p_1508["z"] % m_toy_C_toy_E_P

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_pneg(m_toy_A_toy_E_p_1462) ==
  [x |-> (m_toy_A_toy_E_P - m_toy_A_toy_E_p_1462["x"]) % m_toy_A_toy_E_P,
    y |-> m_toy_A_toy_E_p_1462["y"],
    z |-> m_toy_A_toy_E_p_1462["z"]]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_pneg(m_toy_B_toy_E_p_1462) ==
  [x |-> (m_toy_B_toy_E_P - m_toy_B_toy_E_p_1462["x"]) % m_toy_B_toy_E_P,
    y |-> m_toy_B_toy_E_p_1462["y"],
    z |-> m_toy_B_toy_E_p_1462["z"]]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_pneg(m_toy_C_toy_E_p_1462) ==
  [x |-> (m_toy_C_toy_E_P - m_toy_C_toy_E_p_1462["x"]) % m_toy_C_toy_E_P,
    y |-> m_toy_C_toy_E_p_1462["y"],
    z |-> m_toy_C_toy_E_p_1462["z"]]

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_A_combValue(m_toy_A_k_3698, m_toy_A_q_3698, m_toy_A_n_3698, m_toy_A_t_3698,
m_toy_A_s_3698) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_x ==
    m_toy_A_adjusted(m_toy_A_k_3698, m_toy_A_q_3698, ((m_toy_A_n_3698
      * m_toy_A_t_3698)
      * m_toy_A_s_3698))
  IN
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA89(m_toy_A_acc_3695, m_toy_A_i_3695) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_A_col == (m_toy_A_s_3698 - 1) - m_toy_A_i_3695
    IN
    2 * m_toy_A_acc_3695
      + LET (*
        @type: ((Int, Int) => Int);
      *)
      __QUINT_LAMBDA88(m_toy_A_a_3691, m_toy_A_j_3691) ==
        LET (*
          @type: (() => { index: Int, sign: Int });
        *)
        m_toy_A_e ==
          m_toy_A_combEntry((m_toy_A_combDigit((m_toy_A_x), (m_toy_A_col), m_toy_A_j_3691,
          m_toy_A_t_3698, m_toy_A_s_3698)), m_toy_A_t_3698)
        IN
        m_toy_A_a_3691
          + (m_toy_A_e)["sign"]
            * m_toy_A_combTable(m_toy_A_j_3691, (m_toy_A_e)["index"], m_toy_A_t_3698,
            m_toy_A_s_3698)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA88, 0, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA87(__quint_var43) == (0 + __quint_var43) - 1
      IN
      MkSeq((m_toy_A_n_3698 - 0), __QUINT_LAMBDA87)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA89, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA86(__quint_var42) == (0 + __quint_var42) - 1
  IN
  MkSeq((m_toy_A_s_3698 - 0), __QUINT_LAMBDA86)))

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_B_combValue(m_toy_B_k_3698, m_toy_B_q_3698, m_toy_B_n_3698, m_toy_B_t_3698,
m_toy_B_s_3698) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_x ==
    m_toy_B_adjusted(m_toy_B_k_3698, m_toy_B_q_3698, ((m_toy_B_n_3698
      * m_toy_B_t_3698)
      * m_toy_B_s_3698))
  IN
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA105(m_toy_B_acc_3695, m_toy_B_i_3695) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_B_col == (m_toy_B_s_3698 - 1) - m_toy_B_i_3695
    IN
    2 * m_toy_B_acc_3695
      + LET (*
        @type: ((Int, Int) => Int);
      *)
      __QUINT_LAMBDA104(m_toy_B_a_3691, m_toy_B_j_3691) ==
        LET (*
          @type: (() => { index: Int, sign: Int });
        *)
        m_toy_B_e ==
          m_toy_B_combEntry((m_toy_B_combDigit((m_toy_B_x), (m_toy_B_col), m_toy_B_j_3691,
          m_toy_B_t_3698, m_toy_B_s_3698)), m_toy_B_t_3698)
        IN
        m_toy_B_a_3691
          + (m_toy_B_e)["sign"]
            * m_toy_B_combTable(m_toy_B_j_3691, (m_toy_B_e)["index"], m_toy_B_t_3698,
            m_toy_B_s_3698)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA104, 0, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA103(__quint_var52) == (0 + __quint_var52) - 1
      IN
      MkSeq((m_toy_B_n_3698 - 0), __QUINT_LAMBDA103)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA105, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA102(__quint_var51) == (0 + __quint_var51) - 1
  IN
  MkSeq((m_toy_B_s_3698 - 0), __QUINT_LAMBDA102)))

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
m_toy_C_combValue(m_toy_C_k_3698, m_toy_C_q_3698, m_toy_C_n_3698, m_toy_C_t_3698,
m_toy_C_s_3698) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_x ==
    m_toy_C_adjusted(m_toy_C_k_3698, m_toy_C_q_3698, ((m_toy_C_n_3698
      * m_toy_C_t_3698)
      * m_toy_C_s_3698))
  IN
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA121(m_toy_C_acc_3695, m_toy_C_i_3695) ==
    LET (*
      @type: (() => Int);
    *)
    m_toy_C_col == (m_toy_C_s_3698 - 1) - m_toy_C_i_3695
    IN
    2 * m_toy_C_acc_3695
      + LET (*
        @type: ((Int, Int) => Int);
      *)
      __QUINT_LAMBDA120(m_toy_C_a_3691, m_toy_C_j_3691) ==
        LET (*
          @type: (() => { index: Int, sign: Int });
        *)
        m_toy_C_e ==
          m_toy_C_combEntry((m_toy_C_combDigit((m_toy_C_x), (m_toy_C_col), m_toy_C_j_3691,
          m_toy_C_t_3698, m_toy_C_s_3698)), m_toy_C_t_3698)
        IN
        m_toy_C_a_3691
          + (m_toy_C_e)["sign"]
            * m_toy_C_combTable(m_toy_C_j_3691, (m_toy_C_e)["index"], m_toy_C_t_3698,
            m_toy_C_s_3698)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA120, 0, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA119(__quint_var61) == (0 + __quint_var61) - 1
      IN
      MkSeq((m_toy_C_n_3698 - 0), __QUINT_LAMBDA119)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA121, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA118(__quint_var60) == (0 + __quint_var60) - 1
  IN
  MkSeq((m_toy_C_s_3698 - 0), __QUINT_LAMBDA118)))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: ((Int) => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
*)
m_toy_A_toy_E_decode(m_toy_A_toy_E_e_2001) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_sign == m_toy_A_toy_E_e_2001 \div 2 ^ m_toy_A_toy_E_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_y == m_toy_A_toy_E_e_2001 % 2 ^ m_toy_A_toy_E_SIGN
  IN
  IF m_toy_A_toy_E_y >= m_toy_A_toy_E_P
  THEN [ok |-> FALSE, pt |-> m_toy_A_toy_E_ID]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_u ==
    m_toy_A_toy_E_fsub((m_toy_A_toy_E_fmul((m_toy_A_toy_E_y), (m_toy_A_toy_E_y))),
    1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_v ==
    m_toy_A_toy_E_fsub((m_toy_A_toy_E_fmul((m_toy_A_toy_E_D), (m_toy_A_toy_E_fmul((m_toy_A_toy_E_y),
    (m_toy_A_toy_E_y))))), 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_u3v ==
    m_toy_A_toy_E_fmul((m_toy_A_toy_E_fmul((m_toy_A_toy_E_u), (m_toy_A_toy_E_fmul((m_toy_A_toy_E_u),
    (m_toy_A_toy_E_u))))), (m_toy_A_toy_E_v))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_x ==
    m_toy_A_toy_E_fmul((m_toy_A_toy_E_u3v), (m_toy_A_toy_E_fpow((m_toy_A_toy_E_fmul((m_toy_A_toy_E_u3v),
    (m_toy_A_toy_E_fmul((m_toy_A_toy_E_fmul((m_toy_A_toy_E_u), (m_toy_A_toy_E_u))),
    (m_toy_A_toy_E_fmul((m_toy_A_toy_E_v), (m_toy_A_toy_E_v))))))), ((m_toy_A_toy_E_P
      - 3)
      \div 4))))
  IN
  IF m_toy_A_toy_E_fmul((m_toy_A_toy_E_v), (m_toy_A_toy_E_fmul((m_toy_A_toy_E_x),
  (m_toy_A_toy_E_x))))
    /= m_toy_A_toy_E_u
  THEN [ok |-> FALSE, pt |-> m_toy_A_toy_E_ID]
  ELSE IF m_toy_A_toy_E_x = 0 /\ m_toy_A_toy_E_sign = 1
  THEN [ok |-> FALSE, pt |-> m_toy_A_toy_E_ID]
  ELSE [ok |-> TRUE,
    pt |->
      [x |->
          IF m_toy_A_toy_E_x % 2 = m_toy_A_toy_E_sign
          THEN m_toy_A_toy_E_x
          ELSE m_toy_A_toy_E_P - m_toy_A_toy_E_x,
        y |-> m_toy_A_toy_E_y,
        z |-> 1]]

(*
  @type: ((Int, Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_phi(m_toy_A_toy_W_x_2643, m_toy_A_toy_W_y_2643) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_c == m_toy_A_toy_W_sq(m_toy_A_toy_W_x_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_a == m_toy_A_toy_W_sq(m_toy_A_toy_W_y_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_d == m_toy_A_toy_W_add((m_toy_A_toy_W_c), (m_toy_A_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_b ==
    m_toy_A_toy_W_sub((m_toy_A_toy_W_sq((m_toy_A_toy_W_add(m_toy_A_toy_W_x_2643,
    m_toy_A_toy_W_y_2643)))), (m_toy_A_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_t == m_toy_A_toy_W_sub((m_toy_A_toy_W_a), (m_toy_A_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_e == m_toy_A_toy_W_sub(2, (m_toy_A_toy_W_d))
  IN
  [x |-> m_toy_A_toy_W_m((m_toy_A_toy_W_e), (m_toy_A_toy_W_b)),
    y |-> m_toy_A_toy_W_m((m_toy_A_toy_W_t), (m_toy_A_toy_W_d)),
    z |-> m_toy_A_toy_W_m((m_toy_A_toy_W_t), (m_toy_A_toy_W_e)),
    t |-> m_toy_A_toy_W_m((m_toy_A_toy_W_b), (m_toy_A_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_A_toy_W_onTwist(m_toy_A_toy_W_p_2258) ==
  m_toy_A_toy_W_p_2258["z"] /= 0
    /\ m_toy_A_toy_W_m(m_toy_A_toy_W_p_2258["x"], m_toy_A_toy_W_p_2258["y"])
      = m_toy_A_toy_W_m(m_toy_A_toy_W_p_2258["z"], m_toy_A_toy_W_p_2258["t"])
    /\ m_toy_A_toy_W_sub((m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2258["y"])), (m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2258[
      "x"
    ])))
      = m_toy_A_toy_W_sub((m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2258["z"])), (m_toy_A_toy_W_m((m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2258[
        "t"
      ])), (m_toy_A_toy_W_add(1, (m_toy_A_toy_W_P - m_toy_A_toy_W_D))))))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_A_toy_W_niels(m_toy_A_toy_W_p_2373) ==
  [a |-> m_toy_A_toy_W_sub(m_toy_A_toy_W_p_2373["y"], m_toy_A_toy_W_p_2373["x"]),
    b |->
      m_toy_A_toy_W_add(m_toy_A_toy_W_p_2373["x"], m_toy_A_toy_W_p_2373["y"]),
    c |->
      m_toy_A_toy_W_m(m_toy_A_toy_W_p_2373["t"], (((2 * m_toy_A_toy_W_D
        + 2 * m_toy_A_toy_W_P)
        - 2)
        % m_toy_A_toy_W_P)),
    z |->
      m_toy_A_toy_W_add(m_toy_A_toy_W_p_2373["z"], m_toy_A_toy_W_p_2373["z"])]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_dbl(m_toy_A_toy_W_p_2327) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_c == m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2327["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_a == m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2327["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_d == m_toy_A_toy_W_add((m_toy_A_toy_W_c), (m_toy_A_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_b ==
    m_toy_A_toy_W_sub((m_toy_A_toy_W_sq((m_toy_A_toy_W_add(m_toy_A_toy_W_p_2327[
      "x"
    ], m_toy_A_toy_W_p_2327["y"])))), (m_toy_A_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_t == m_toy_A_toy_W_sub((m_toy_A_toy_W_a), (m_toy_A_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_e ==
    m_toy_A_toy_W_sub((m_toy_A_toy_W_add((m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2327[
      "z"
    ])), (m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2327["z"])))), (m_toy_A_toy_W_t))
  IN
  [x |-> m_toy_A_toy_W_m((m_toy_A_toy_W_e), (m_toy_A_toy_W_b)),
    y |-> m_toy_A_toy_W_m((m_toy_A_toy_W_t), (m_toy_A_toy_W_d)),
    z |-> m_toy_A_toy_W_m((m_toy_A_toy_W_t), (m_toy_A_toy_W_e)),
    t |-> m_toy_A_toy_W_m((m_toy_A_toy_W_b), (m_toy_A_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_addN(m_toy_A_toy_W_p_2487, m_toy_A_toy_W_q_2487) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_z ==
    m_toy_A_toy_W_m(m_toy_A_toy_W_p_2487["z"], m_toy_A_toy_W_q_2487["z"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_a ==
    m_toy_A_toy_W_m(m_toy_A_toy_W_q_2487["a"], (m_toy_A_toy_W_sub(m_toy_A_toy_W_p_2487[
      "y"
    ], m_toy_A_toy_W_p_2487["x"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_y ==
    m_toy_A_toy_W_m(m_toy_A_toy_W_q_2487["b"], (m_toy_A_toy_W_add(m_toy_A_toy_W_p_2487[
      "x"
    ], m_toy_A_toy_W_p_2487["y"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_x ==
    m_toy_A_toy_W_m(m_toy_A_toy_W_q_2487["c"], m_toy_A_toy_W_p_2487["t"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_c == m_toy_A_toy_W_add((m_toy_A_toy_W_a), (m_toy_A_toy_W_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_b == m_toy_A_toy_W_sub((m_toy_A_toy_W_y), (m_toy_A_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_f == m_toy_A_toy_W_sub((m_toy_A_toy_W_z), (m_toy_A_toy_W_x))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_g == m_toy_A_toy_W_add((m_toy_A_toy_W_x), (m_toy_A_toy_W_z))
  IN
  [x |-> m_toy_A_toy_W_m((m_toy_A_toy_W_f), (m_toy_A_toy_W_b)),
    y |-> m_toy_A_toy_W_m((m_toy_A_toy_W_g), (m_toy_A_toy_W_c)),
    z |-> m_toy_A_toy_W_m((m_toy_A_toy_W_g), (m_toy_A_toy_W_f)),
    t |-> m_toy_A_toy_W_m((m_toy_A_toy_W_b), (m_toy_A_toy_W_c))]

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_fromNiels(m_toy_A_toy_W_n_2972) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_eu ==
    m_toy_A_toy_W_add(m_toy_A_toy_W_n_2972["b"], m_toy_A_toy_W_n_2972["a"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_y ==
    m_toy_A_toy_W_sub(m_toy_A_toy_W_n_2972["b"], m_toy_A_toy_W_n_2972["a"])
  IN
  [x |-> m_toy_A_toy_W_m(m_toy_A_toy_W_n_2972["z"], (m_toy_A_toy_W_y)),
    y |-> m_toy_A_toy_W_m(m_toy_A_toy_W_n_2972["z"], (m_toy_A_toy_W_eu)),
    z |-> m_toy_A_toy_W_sq(m_toy_A_toy_W_n_2972["z"]),
    t |-> m_toy_A_toy_W_m((m_toy_A_toy_W_y), (m_toy_A_toy_W_eu))]

(*
  @type: (({ x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_A_toy_E_onCurve(m_toy_A_toy_E_p_1304) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_xx ==
    m_toy_A_toy_E_fmul(m_toy_A_toy_E_p_1304["x"], m_toy_A_toy_E_p_1304["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_yy ==
    m_toy_A_toy_E_fmul(m_toy_A_toy_E_p_1304["y"], m_toy_A_toy_E_p_1304["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_zz ==
    m_toy_A_toy_E_fmul(m_toy_A_toy_E_p_1304["z"], m_toy_A_toy_E_p_1304["z"])
  IN
  m_toy_A_toy_E_p_1304["z"] % m_toy_A_toy_E_P /= 0
    /\ m_toy_A_toy_E_fmul((m_toy_A_toy_E_fadd((m_toy_A_toy_E_xx), (m_toy_A_toy_E_yy))),
    (m_toy_A_toy_E_zz))
      = m_toy_A_toy_E_fadd((m_toy_A_toy_E_fmul((m_toy_A_toy_E_zz), (m_toy_A_toy_E_zz))),
      (m_toy_A_toy_E_fmul((m_toy_A_toy_E_D), (m_toy_A_toy_E_fmul((m_toy_A_toy_E_xx),
      (m_toy_A_toy_E_yy))))))

(*
  @type: ((Int) => Int);
*)
m_toy_A_toy_E_finv(m_toy_A_toy_E_a_1193) ==
  m_toy_A_toy_E_fpow(m_toy_A_toy_E_a_1193, (m_toy_A_toy_E_P - 2))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Int);
*)
m_toy_A_toy_W_encodeExt(m_toy_A_toy_W_p_2727) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_x2 == m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2727["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_y2 == m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2727["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_u == m_toy_A_toy_W_add((m_toy_A_toy_W_x2), (m_toy_A_toy_W_y2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_w ==
    m_toy_A_toy_W_sub((m_toy_A_toy_W_u), (m_toy_A_toy_W_sq((m_toy_A_toy_W_add(m_toy_A_toy_W_p_2727[
      "y"
    ], m_toy_A_toy_W_p_2727["x"])))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_z == m_toy_A_toy_W_sub((m_toy_A_toy_W_y2), (m_toy_A_toy_W_x2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_t ==
    m_toy_A_toy_W_sub((m_toy_A_toy_W_add((m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2727[
      "z"
    ])), (m_toy_A_toy_W_sq(m_toy_A_toy_W_p_2727["z"])))), (m_toy_A_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_zi ==
    m_toy_A_toy_W_pw((m_toy_A_toy_W_m((m_toy_A_toy_W_u), (m_toy_A_toy_W_t))), (m_toy_A_toy_W_P
      - 2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_xe ==
    m_toy_A_toy_W_m((m_toy_A_toy_W_m((m_toy_A_toy_W_t), (m_toy_A_toy_W_w))), (m_toy_A_toy_W_zi))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_ye ==
    m_toy_A_toy_W_m((m_toy_A_toy_W_m((m_toy_A_toy_W_z), (m_toy_A_toy_W_u))), (m_toy_A_toy_W_zi))
  IN
  m_toy_A_toy_W_ye + (m_toy_A_toy_W_xe % 2) * 2 ^ m_toy_A_toy_W_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_p4(m_toy_A_toy_E_p_1608) ==
  m_toy_A_toy_E_pdbl((m_toy_A_toy_E_pdbl(m_toy_A_toy_E_p_1608)))

(*
  @type: ((Int) => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
*)
m_toy_B_toy_E_decode(m_toy_B_toy_E_e_2001) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_sign == m_toy_B_toy_E_e_2001 \div 2 ^ m_toy_B_toy_E_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_y == m_toy_B_toy_E_e_2001 % 2 ^ m_toy_B_toy_E_SIGN
  IN
  IF m_toy_B_toy_E_y >= m_toy_B_toy_E_P
  THEN [ok |-> FALSE, pt |-> m_toy_B_toy_E_ID]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_u ==
    m_toy_B_toy_E_fsub((m_toy_B_toy_E_fmul((m_toy_B_toy_E_y), (m_toy_B_toy_E_y))),
    1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_v ==
    m_toy_B_toy_E_fsub((m_toy_B_toy_E_fmul((m_toy_B_toy_E_D), (m_toy_B_toy_E_fmul((m_toy_B_toy_E_y),
    (m_toy_B_toy_E_y))))), 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_u3v ==
    m_toy_B_toy_E_fmul((m_toy_B_toy_E_fmul((m_toy_B_toy_E_u), (m_toy_B_toy_E_fmul((m_toy_B_toy_E_u),
    (m_toy_B_toy_E_u))))), (m_toy_B_toy_E_v))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_x ==
    m_toy_B_toy_E_fmul((m_toy_B_toy_E_u3v), (m_toy_B_toy_E_fpow((m_toy_B_toy_E_fmul((m_toy_B_toy_E_u3v),
    (m_toy_B_toy_E_fmul((m_toy_B_toy_E_fmul((m_toy_B_toy_E_u), (m_toy_B_toy_E_u))),
    (m_toy_B_toy_E_fmul((m_toy_B_toy_E_v), (m_toy_B_toy_E_v))))))), ((m_toy_B_toy_E_P
      - 3)
      \div 4))))
  IN
  IF m_toy_B_toy_E_fmul((m_toy_B_toy_E_v), (m_toy_B_toy_E_fmul((m_toy_B_toy_E_x),
  (m_toy_B_toy_E_x))))
    /= m_toy_B_toy_E_u
  THEN [ok |-> FALSE, pt |-> m_toy_B_toy_E_ID]
  ELSE IF m_toy_B_toy_E_x = 0 /\ m_toy_B_toy_E_sign = 1
  THEN [ok |-> FALSE, pt |-> m_toy_B_toy_E_ID]
  ELSE [ok |-> TRUE,
    pt |->
      [x |->
          IF m_toy_B_toy_E_x % 2 = m_toy_B_toy_E_sign
          THEN m_toy_B_toy_E_x
          ELSE m_toy_B_toy_E_P - m_toy_B_toy_E_x,
        y |-> m_toy_B_toy_E_y,
        z |-> 1]]

(*
  @type: ((Int, Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_phi(m_toy_B_toy_W_x_2643, m_toy_B_toy_W_y_2643) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_c == m_toy_B_toy_W_sq(m_toy_B_toy_W_x_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_a == m_toy_B_toy_W_sq(m_toy_B_toy_W_y_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_d == m_toy_B_toy_W_add((m_toy_B_toy_W_c), (m_toy_B_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_b ==
    m_toy_B_toy_W_sub((m_toy_B_toy_W_sq((m_toy_B_toy_W_add(m_toy_B_toy_W_x_2643,
    m_toy_B_toy_W_y_2643)))), (m_toy_B_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_t == m_toy_B_toy_W_sub((m_toy_B_toy_W_a), (m_toy_B_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_e == m_toy_B_toy_W_sub(2, (m_toy_B_toy_W_d))
  IN
  [x |-> m_toy_B_toy_W_m((m_toy_B_toy_W_e), (m_toy_B_toy_W_b)),
    y |-> m_toy_B_toy_W_m((m_toy_B_toy_W_t), (m_toy_B_toy_W_d)),
    z |-> m_toy_B_toy_W_m((m_toy_B_toy_W_t), (m_toy_B_toy_W_e)),
    t |-> m_toy_B_toy_W_m((m_toy_B_toy_W_b), (m_toy_B_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_B_toy_W_onTwist(m_toy_B_toy_W_p_2258) ==
  m_toy_B_toy_W_p_2258["z"] /= 0
    /\ m_toy_B_toy_W_m(m_toy_B_toy_W_p_2258["x"], m_toy_B_toy_W_p_2258["y"])
      = m_toy_B_toy_W_m(m_toy_B_toy_W_p_2258["z"], m_toy_B_toy_W_p_2258["t"])
    /\ m_toy_B_toy_W_sub((m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2258["y"])), (m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2258[
      "x"
    ])))
      = m_toy_B_toy_W_sub((m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2258["z"])), (m_toy_B_toy_W_m((m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2258[
        "t"
      ])), (m_toy_B_toy_W_add(1, (m_toy_B_toy_W_P - m_toy_B_toy_W_D))))))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_B_toy_W_niels(m_toy_B_toy_W_p_2373) ==
  [a |-> m_toy_B_toy_W_sub(m_toy_B_toy_W_p_2373["y"], m_toy_B_toy_W_p_2373["x"]),
    b |->
      m_toy_B_toy_W_add(m_toy_B_toy_W_p_2373["x"], m_toy_B_toy_W_p_2373["y"]),
    c |->
      m_toy_B_toy_W_m(m_toy_B_toy_W_p_2373["t"], (((2 * m_toy_B_toy_W_D
        + 2 * m_toy_B_toy_W_P)
        - 2)
        % m_toy_B_toy_W_P)),
    z |->
      m_toy_B_toy_W_add(m_toy_B_toy_W_p_2373["z"], m_toy_B_toy_W_p_2373["z"])]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_dbl(m_toy_B_toy_W_p_2327) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_c == m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2327["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_a == m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2327["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_d == m_toy_B_toy_W_add((m_toy_B_toy_W_c), (m_toy_B_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_b ==
    m_toy_B_toy_W_sub((m_toy_B_toy_W_sq((m_toy_B_toy_W_add(m_toy_B_toy_W_p_2327[
      "x"
    ], m_toy_B_toy_W_p_2327["y"])))), (m_toy_B_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_t == m_toy_B_toy_W_sub((m_toy_B_toy_W_a), (m_toy_B_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_e ==
    m_toy_B_toy_W_sub((m_toy_B_toy_W_add((m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2327[
      "z"
    ])), (m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2327["z"])))), (m_toy_B_toy_W_t))
  IN
  [x |-> m_toy_B_toy_W_m((m_toy_B_toy_W_e), (m_toy_B_toy_W_b)),
    y |-> m_toy_B_toy_W_m((m_toy_B_toy_W_t), (m_toy_B_toy_W_d)),
    z |-> m_toy_B_toy_W_m((m_toy_B_toy_W_t), (m_toy_B_toy_W_e)),
    t |-> m_toy_B_toy_W_m((m_toy_B_toy_W_b), (m_toy_B_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_addN(m_toy_B_toy_W_p_2487, m_toy_B_toy_W_q_2487) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_z ==
    m_toy_B_toy_W_m(m_toy_B_toy_W_p_2487["z"], m_toy_B_toy_W_q_2487["z"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_a ==
    m_toy_B_toy_W_m(m_toy_B_toy_W_q_2487["a"], (m_toy_B_toy_W_sub(m_toy_B_toy_W_p_2487[
      "y"
    ], m_toy_B_toy_W_p_2487["x"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_y ==
    m_toy_B_toy_W_m(m_toy_B_toy_W_q_2487["b"], (m_toy_B_toy_W_add(m_toy_B_toy_W_p_2487[
      "x"
    ], m_toy_B_toy_W_p_2487["y"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_x ==
    m_toy_B_toy_W_m(m_toy_B_toy_W_q_2487["c"], m_toy_B_toy_W_p_2487["t"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_c == m_toy_B_toy_W_add((m_toy_B_toy_W_a), (m_toy_B_toy_W_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_b == m_toy_B_toy_W_sub((m_toy_B_toy_W_y), (m_toy_B_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_f == m_toy_B_toy_W_sub((m_toy_B_toy_W_z), (m_toy_B_toy_W_x))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_g == m_toy_B_toy_W_add((m_toy_B_toy_W_x), (m_toy_B_toy_W_z))
  IN
  [x |-> m_toy_B_toy_W_m((m_toy_B_toy_W_f), (m_toy_B_toy_W_b)),
    y |-> m_toy_B_toy_W_m((m_toy_B_toy_W_g), (m_toy_B_toy_W_c)),
    z |-> m_toy_B_toy_W_m((m_toy_B_toy_W_g), (m_toy_B_toy_W_f)),
    t |-> m_toy_B_toy_W_m((m_toy_B_toy_W_b), (m_toy_B_toy_W_c))]

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_fromNiels(m_toy_B_toy_W_n_2972) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_eu ==
    m_toy_B_toy_W_add(m_toy_B_toy_W_n_2972["b"], m_toy_B_toy_W_n_2972["a"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_y ==
    m_toy_B_toy_W_sub(m_toy_B_toy_W_n_2972["b"], m_toy_B_toy_W_n_2972["a"])
  IN
  [x |-> m_toy_B_toy_W_m(m_toy_B_toy_W_n_2972["z"], (m_toy_B_toy_W_y)),
    y |-> m_toy_B_toy_W_m(m_toy_B_toy_W_n_2972["z"], (m_toy_B_toy_W_eu)),
    z |-> m_toy_B_toy_W_sq(m_toy_B_toy_W_n_2972["z"]),
    t |-> m_toy_B_toy_W_m((m_toy_B_toy_W_y), (m_toy_B_toy_W_eu))]

(*
  @type: (({ x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_B_toy_E_onCurve(m_toy_B_toy_E_p_1304) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_xx ==
    m_toy_B_toy_E_fmul(m_toy_B_toy_E_p_1304["x"], m_toy_B_toy_E_p_1304["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_yy ==
    m_toy_B_toy_E_fmul(m_toy_B_toy_E_p_1304["y"], m_toy_B_toy_E_p_1304["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_zz ==
    m_toy_B_toy_E_fmul(m_toy_B_toy_E_p_1304["z"], m_toy_B_toy_E_p_1304["z"])
  IN
  m_toy_B_toy_E_p_1304["z"] % m_toy_B_toy_E_P /= 0
    /\ m_toy_B_toy_E_fmul((m_toy_B_toy_E_fadd((m_toy_B_toy_E_xx), (m_toy_B_toy_E_yy))),
    (m_toy_B_toy_E_zz))
      = m_toy_B_toy_E_fadd((m_toy_B_toy_E_fmul((m_toy_B_toy_E_zz), (m_toy_B_toy_E_zz))),
      (m_toy_B_toy_E_fmul((m_toy_B_toy_E_D), (m_toy_B_toy_E_fmul((m_toy_B_toy_E_xx),
      (m_toy_B_toy_E_yy))))))

(*
  @type: ((Int) => Int);
*)
m_toy_B_toy_E_finv(m_toy_B_toy_E_a_1193) ==
  m_toy_B_toy_E_fpow(m_toy_B_toy_E_a_1193, (m_toy_B_toy_E_P - 2))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Int);
*)
m_toy_B_toy_W_encodeExt(m_toy_B_toy_W_p_2727) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_x2 == m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2727["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_y2 == m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2727["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_u == m_toy_B_toy_W_add((m_toy_B_toy_W_x2), (m_toy_B_toy_W_y2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_w ==
    m_toy_B_toy_W_sub((m_toy_B_toy_W_u), (m_toy_B_toy_W_sq((m_toy_B_toy_W_add(m_toy_B_toy_W_p_2727[
      "y"
    ], m_toy_B_toy_W_p_2727["x"])))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_z == m_toy_B_toy_W_sub((m_toy_B_toy_W_y2), (m_toy_B_toy_W_x2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_t ==
    m_toy_B_toy_W_sub((m_toy_B_toy_W_add((m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2727[
      "z"
    ])), (m_toy_B_toy_W_sq(m_toy_B_toy_W_p_2727["z"])))), (m_toy_B_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_zi ==
    m_toy_B_toy_W_pw((m_toy_B_toy_W_m((m_toy_B_toy_W_u), (m_toy_B_toy_W_t))), (m_toy_B_toy_W_P
      - 2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_xe ==
    m_toy_B_toy_W_m((m_toy_B_toy_W_m((m_toy_B_toy_W_t), (m_toy_B_toy_W_w))), (m_toy_B_toy_W_zi))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_ye ==
    m_toy_B_toy_W_m((m_toy_B_toy_W_m((m_toy_B_toy_W_z), (m_toy_B_toy_W_u))), (m_toy_B_toy_W_zi))
  IN
  m_toy_B_toy_W_ye + (m_toy_B_toy_W_xe % 2) * 2 ^ m_toy_B_toy_W_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_p4(m_toy_B_toy_E_p_1608) ==
  m_toy_B_toy_E_pdbl((m_toy_B_toy_E_pdbl(m_toy_B_toy_E_p_1608)))

(*
  @type: ((Int) => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
*)
m_toy_C_toy_E_decode(m_toy_C_toy_E_e_2001) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_sign == m_toy_C_toy_E_e_2001 \div 2 ^ m_toy_C_toy_E_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_y == m_toy_C_toy_E_e_2001 % 2 ^ m_toy_C_toy_E_SIGN
  IN
  IF m_toy_C_toy_E_y >= m_toy_C_toy_E_P
  THEN [ok |-> FALSE, pt |-> m_toy_C_toy_E_ID]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_u ==
    m_toy_C_toy_E_fsub((m_toy_C_toy_E_fmul((m_toy_C_toy_E_y), (m_toy_C_toy_E_y))),
    1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_v ==
    m_toy_C_toy_E_fsub((m_toy_C_toy_E_fmul((m_toy_C_toy_E_D), (m_toy_C_toy_E_fmul((m_toy_C_toy_E_y),
    (m_toy_C_toy_E_y))))), 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_u3v ==
    m_toy_C_toy_E_fmul((m_toy_C_toy_E_fmul((m_toy_C_toy_E_u), (m_toy_C_toy_E_fmul((m_toy_C_toy_E_u),
    (m_toy_C_toy_E_u))))), (m_toy_C_toy_E_v))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_x ==
    m_toy_C_toy_E_fmul((m_toy_C_toy_E_u3v), (m_toy_C_toy_E_fpow((m_toy_C_toy_E_fmul((m_toy_C_toy_E_u3v),
    (m_toy_C_toy_E_fmul((m_toy_C_toy_E_fmul((m_toy_C_toy_E_u), (m_toy_C_toy_E_u))),
    (m_toy_C_toy_E_fmul((m_toy_C_toy_E_v), (m_toy_C_toy_E_v))))))), ((m_toy_C_toy_E_P
      - 3)
      \div 4))))
  IN
  IF m_toy_C_toy_E_fmul((m_toy_C_toy_E_v), (m_toy_C_toy_E_fmul((m_toy_C_toy_E_x),
  (m_toy_C_toy_E_x))))
    /= m_toy_C_toy_E_u
  THEN [ok |-> FALSE, pt |-> m_toy_C_toy_E_ID]
  ELSE IF m_toy_C_toy_E_x = 0 /\ m_toy_C_toy_E_sign = 1
  THEN [ok |-> FALSE, pt |-> m_toy_C_toy_E_ID]
  ELSE [ok |-> TRUE,
    pt |->
      [x |->
          IF m_toy_C_toy_E_x % 2 = m_toy_C_toy_E_sign
          THEN m_toy_C_toy_E_x
          ELSE m_toy_C_toy_E_P - m_toy_C_toy_E_x,
        y |-> m_toy_C_toy_E_y,
        z |-> 1]]

(*
  @type: ((Int, Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_phi(m_toy_C_toy_W_x_2643, m_toy_C_toy_W_y_2643) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_c == m_toy_C_toy_W_sq(m_toy_C_toy_W_x_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_a == m_toy_C_toy_W_sq(m_toy_C_toy_W_y_2643)
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_d == m_toy_C_toy_W_add((m_toy_C_toy_W_c), (m_toy_C_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_b ==
    m_toy_C_toy_W_sub((m_toy_C_toy_W_sq((m_toy_C_toy_W_add(m_toy_C_toy_W_x_2643,
    m_toy_C_toy_W_y_2643)))), (m_toy_C_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_t == m_toy_C_toy_W_sub((m_toy_C_toy_W_a), (m_toy_C_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_e == m_toy_C_toy_W_sub(2, (m_toy_C_toy_W_d))
  IN
  [x |-> m_toy_C_toy_W_m((m_toy_C_toy_W_e), (m_toy_C_toy_W_b)),
    y |-> m_toy_C_toy_W_m((m_toy_C_toy_W_t), (m_toy_C_toy_W_d)),
    z |-> m_toy_C_toy_W_m((m_toy_C_toy_W_t), (m_toy_C_toy_W_e)),
    t |-> m_toy_C_toy_W_m((m_toy_C_toy_W_b), (m_toy_C_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_C_toy_W_onTwist(m_toy_C_toy_W_p_2258) ==
  m_toy_C_toy_W_p_2258["z"] /= 0
    /\ m_toy_C_toy_W_m(m_toy_C_toy_W_p_2258["x"], m_toy_C_toy_W_p_2258["y"])
      = m_toy_C_toy_W_m(m_toy_C_toy_W_p_2258["z"], m_toy_C_toy_W_p_2258["t"])
    /\ m_toy_C_toy_W_sub((m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2258["y"])), (m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2258[
      "x"
    ])))
      = m_toy_C_toy_W_sub((m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2258["z"])), (m_toy_C_toy_W_m((m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2258[
        "t"
      ])), (m_toy_C_toy_W_add(1, (m_toy_C_toy_W_P - m_toy_C_toy_W_D))))))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { a: Int, b: Int, c: Int, z: Int });
*)
m_toy_C_toy_W_niels(m_toy_C_toy_W_p_2373) ==
  [a |-> m_toy_C_toy_W_sub(m_toy_C_toy_W_p_2373["y"], m_toy_C_toy_W_p_2373["x"]),
    b |->
      m_toy_C_toy_W_add(m_toy_C_toy_W_p_2373["x"], m_toy_C_toy_W_p_2373["y"]),
    c |->
      m_toy_C_toy_W_m(m_toy_C_toy_W_p_2373["t"], (((2 * m_toy_C_toy_W_D
        + 2 * m_toy_C_toy_W_P)
        - 2)
        % m_toy_C_toy_W_P)),
    z |->
      m_toy_C_toy_W_add(m_toy_C_toy_W_p_2373["z"], m_toy_C_toy_W_p_2373["z"])]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_dbl(m_toy_C_toy_W_p_2327) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_c == m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2327["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_a == m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2327["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_d == m_toy_C_toy_W_add((m_toy_C_toy_W_c), (m_toy_C_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_b ==
    m_toy_C_toy_W_sub((m_toy_C_toy_W_sq((m_toy_C_toy_W_add(m_toy_C_toy_W_p_2327[
      "x"
    ], m_toy_C_toy_W_p_2327["y"])))), (m_toy_C_toy_W_d))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_t == m_toy_C_toy_W_sub((m_toy_C_toy_W_a), (m_toy_C_toy_W_c))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_e ==
    m_toy_C_toy_W_sub((m_toy_C_toy_W_add((m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2327[
      "z"
    ])), (m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2327["z"])))), (m_toy_C_toy_W_t))
  IN
  [x |-> m_toy_C_toy_W_m((m_toy_C_toy_W_e), (m_toy_C_toy_W_b)),
    y |-> m_toy_C_toy_W_m((m_toy_C_toy_W_t), (m_toy_C_toy_W_d)),
    z |-> m_toy_C_toy_W_m((m_toy_C_toy_W_t), (m_toy_C_toy_W_e)),
    t |-> m_toy_C_toy_W_m((m_toy_C_toy_W_b), (m_toy_C_toy_W_d))]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_addN(m_toy_C_toy_W_p_2487, m_toy_C_toy_W_q_2487) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_z ==
    m_toy_C_toy_W_m(m_toy_C_toy_W_p_2487["z"], m_toy_C_toy_W_q_2487["z"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_a ==
    m_toy_C_toy_W_m(m_toy_C_toy_W_q_2487["a"], (m_toy_C_toy_W_sub(m_toy_C_toy_W_p_2487[
      "y"
    ], m_toy_C_toy_W_p_2487["x"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_y ==
    m_toy_C_toy_W_m(m_toy_C_toy_W_q_2487["b"], (m_toy_C_toy_W_add(m_toy_C_toy_W_p_2487[
      "x"
    ], m_toy_C_toy_W_p_2487["y"])))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_x ==
    m_toy_C_toy_W_m(m_toy_C_toy_W_q_2487["c"], m_toy_C_toy_W_p_2487["t"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_c == m_toy_C_toy_W_add((m_toy_C_toy_W_a), (m_toy_C_toy_W_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_b == m_toy_C_toy_W_sub((m_toy_C_toy_W_y), (m_toy_C_toy_W_a))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_f == m_toy_C_toy_W_sub((m_toy_C_toy_W_z), (m_toy_C_toy_W_x))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_g == m_toy_C_toy_W_add((m_toy_C_toy_W_x), (m_toy_C_toy_W_z))
  IN
  [x |-> m_toy_C_toy_W_m((m_toy_C_toy_W_f), (m_toy_C_toy_W_b)),
    y |-> m_toy_C_toy_W_m((m_toy_C_toy_W_g), (m_toy_C_toy_W_c)),
    z |-> m_toy_C_toy_W_m((m_toy_C_toy_W_g), (m_toy_C_toy_W_f)),
    t |-> m_toy_C_toy_W_m((m_toy_C_toy_W_b), (m_toy_C_toy_W_c))]

(*
  @type: (({ a: Int, b: Int, c: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_fromNiels(m_toy_C_toy_W_n_2972) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_eu ==
    m_toy_C_toy_W_add(m_toy_C_toy_W_n_2972["b"], m_toy_C_toy_W_n_2972["a"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_y ==
    m_toy_C_toy_W_sub(m_toy_C_toy_W_n_2972["b"], m_toy_C_toy_W_n_2972["a"])
  IN
  [x |-> m_toy_C_toy_W_m(m_toy_C_toy_W_n_2972["z"], (m_toy_C_toy_W_y)),
    y |-> m_toy_C_toy_W_m(m_toy_C_toy_W_n_2972["z"], (m_toy_C_toy_W_eu)),
    z |-> m_toy_C_toy_W_sq(m_toy_C_toy_W_n_2972["z"]),
    t |-> m_toy_C_toy_W_m((m_toy_C_toy_W_y), (m_toy_C_toy_W_eu))]

(*
  @type: (({ x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_C_toy_E_onCurve(m_toy_C_toy_E_p_1304) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_xx ==
    m_toy_C_toy_E_fmul(m_toy_C_toy_E_p_1304["x"], m_toy_C_toy_E_p_1304["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_yy ==
    m_toy_C_toy_E_fmul(m_toy_C_toy_E_p_1304["y"], m_toy_C_toy_E_p_1304["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_zz ==
    m_toy_C_toy_E_fmul(m_toy_C_toy_E_p_1304["z"], m_toy_C_toy_E_p_1304["z"])
  IN
  m_toy_C_toy_E_p_1304["z"] % m_toy_C_toy_E_P /= 0
    /\ m_toy_C_toy_E_fmul((m_toy_C_toy_E_fadd((m_toy_C_toy_E_xx), (m_toy_C_toy_E_yy))),
    (m_toy_C_toy_E_zz))
      = m_toy_C_toy_E_fadd((m_toy_C_toy_E_fmul((m_toy_C_toy_E_zz), (m_toy_C_toy_E_zz))),
      (m_toy_C_toy_E_fmul((m_toy_C_toy_E_D), (m_toy_C_toy_E_fmul((m_toy_C_toy_E_xx),
      (m_toy_C_toy_E_yy))))))

(*
  @type: ((Int) => Int);
*)
m_toy_C_toy_E_finv(m_toy_C_toy_E_a_1193) ==
  m_toy_C_toy_E_fpow(m_toy_C_toy_E_a_1193, (m_toy_C_toy_E_P - 2))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }) => Int);
*)
m_toy_C_toy_W_encodeExt(m_toy_C_toy_W_p_2727) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_x2 == m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2727["x"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_y2 == m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2727["y"])
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_u == m_toy_C_toy_W_add((m_toy_C_toy_W_x2), (m_toy_C_toy_W_y2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_w ==
    m_toy_C_toy_W_sub((m_toy_C_toy_W_u), (m_toy_C_toy_W_sq((m_toy_C_toy_W_add(m_toy_C_toy_W_p_2727[
      "y"
    ], m_toy_C_toy_W_p_2727["x"])))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_z == m_toy_C_toy_W_sub((m_toy_C_toy_W_y2), (m_toy_C_toy_W_x2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_t ==
    m_toy_C_toy_W_sub((m_toy_C_toy_W_add((m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2727[
      "z"
    ])), (m_toy_C_toy_W_sq(m_toy_C_toy_W_p_2727["z"])))), (m_toy_C_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_zi ==
    m_toy_C_toy_W_pw((m_toy_C_toy_W_m((m_toy_C_toy_W_u), (m_toy_C_toy_W_t))), (m_toy_C_toy_W_P
      - 2))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_xe ==
    m_toy_C_toy_W_m((m_toy_C_toy_W_m((m_toy_C_toy_W_t), (m_toy_C_toy_W_w))), (m_toy_C_toy_W_zi))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_ye ==
    m_toy_C_toy_W_m((m_toy_C_toy_W_m((m_toy_C_toy_W_z), (m_toy_C_toy_W_u))), (m_toy_C_toy_W_zi))
  IN
  m_toy_C_toy_W_ye + (m_toy_C_toy_W_xe % 2) * 2 ^ m_toy_C_toy_W_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_p4(m_toy_C_toy_E_p_1608) ==
  m_toy_C_toy_E_pdbl((m_toy_C_toy_E_pdbl(m_toy_C_toy_E_p_1608)))

(*
  @type: (() => Seq(Seq({ x: Int, y: Int, z: Int })));
*)
m_toy_A_toy_E_GPOW ==
  LET (*
    @type: (({ out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } }, Int) => { out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA54(m_toy_A_toy_E_s_1771, m_toy_A_toy_E_i_1771) ==
    LET (*
      @type: (() => Seq({ x: Int, y: Int, z: Int }));
    *)
    m_toy_A_toy_E_row ==
      LET (*
        @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
      *)
      __QUINT_LAMBDA53(m_toy_A_toy_E_l_1752, m_toy_A_toy_E_j_1752) ==
        Append(m_toy_A_toy_E_l_1752, (m_toy_A_toy_E_padd(m_toy_A_toy_E_l_1752[
          ((m_toy_A_toy_E_j_1752 + 1) + 1)
        ], m_toy_A_toy_E_s_1771["q"])))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA53, <<
        (m_toy_A_toy_E_ID), m_toy_A_toy_E_s_1771["q"]
      >>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA52(__quint_var25) == (0 + __quint_var25) - 1
      IN
      MkSeq((14 - 0), __QUINT_LAMBDA52)))
    IN
    [q |->
        m_toy_A_toy_E_padd((m_toy_A_toy_E_row)[(15 + 1)], m_toy_A_toy_E_s_1771[
          "q"
        ]),
      out |-> Append(m_toy_A_toy_E_s_1771["out"], (m_toy_A_toy_E_row))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA54, [q |-> m_toy_A_toy_E_G, out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA51(__quint_var24) == (0 + __quint_var24) - 1
  IN
  MkSeq((m_toy_A_toy_E_NIBBLES - 0), __QUINT_LAMBDA51)))[
    "out"
  ]

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_A_torsionPt(m_toy_A_i_435) ==
  IF m_toy_A_i_435 = 0
  THEN m_toy_A_toy_E_ID
  ELSE IF m_toy_A_i_435 = 1
  THEN m_toy_A_toy_E_T2
  ELSE IF m_toy_A_i_435 = 2
  THEN m_toy_A_toy_E_T4
  ELSE m_toy_A_toy_E_padd((m_toy_A_toy_E_T2), (m_toy_A_toy_E_T4))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_A_toy_W_same(m_toy_A_toy_W_p_2588, m_toy_A_toy_W_q_2588) ==
  m_toy_A_toy_W_m(m_toy_A_toy_W_p_2588["x"], m_toy_A_toy_W_q_2588["z"])
      = m_toy_A_toy_W_m(m_toy_A_toy_W_q_2588["x"], m_toy_A_toy_W_p_2588["z"])
    /\ m_toy_A_toy_W_m(m_toy_A_toy_W_p_2588["y"], m_toy_A_toy_W_q_2588["z"])
      = m_toy_A_toy_W_m(m_toy_A_toy_W_q_2588["y"], m_toy_A_toy_W_p_2588["z"])

(*
  @type: (() => Seq(Seq({ x: Int, y: Int, z: Int })));
*)
m_toy_B_toy_E_GPOW ==
  LET (*
    @type: (({ out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } }, Int) => { out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA62(m_toy_B_toy_E_s_1771, m_toy_B_toy_E_i_1771) ==
    LET (*
      @type: (() => Seq({ x: Int, y: Int, z: Int }));
    *)
    m_toy_B_toy_E_row ==
      LET (*
        @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
      *)
      __QUINT_LAMBDA61(m_toy_B_toy_E_l_1752, m_toy_B_toy_E_j_1752) ==
        Append(m_toy_B_toy_E_l_1752, (m_toy_B_toy_E_padd(m_toy_B_toy_E_l_1752[
          ((m_toy_B_toy_E_j_1752 + 1) + 1)
        ], m_toy_B_toy_E_s_1771["q"])))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA61, <<
        (m_toy_B_toy_E_ID), m_toy_B_toy_E_s_1771["q"]
      >>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA60(__quint_var29) == (0 + __quint_var29) - 1
      IN
      MkSeq((14 - 0), __QUINT_LAMBDA60)))
    IN
    [q |->
        m_toy_B_toy_E_padd((m_toy_B_toy_E_row)[(15 + 1)], m_toy_B_toy_E_s_1771[
          "q"
        ]),
      out |-> Append(m_toy_B_toy_E_s_1771["out"], (m_toy_B_toy_E_row))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA62, [q |-> m_toy_B_toy_E_G, out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA59(__quint_var28) == (0 + __quint_var28) - 1
  IN
  MkSeq((m_toy_B_toy_E_NIBBLES - 0), __QUINT_LAMBDA59)))[
    "out"
  ]

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_B_torsionPt(m_toy_B_i_435) ==
  IF m_toy_B_i_435 = 0
  THEN m_toy_B_toy_E_ID
  ELSE IF m_toy_B_i_435 = 1
  THEN m_toy_B_toy_E_T2
  ELSE IF m_toy_B_i_435 = 2
  THEN m_toy_B_toy_E_T4
  ELSE m_toy_B_toy_E_padd((m_toy_B_toy_E_T2), (m_toy_B_toy_E_T4))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_B_toy_W_same(m_toy_B_toy_W_p_2588, m_toy_B_toy_W_q_2588) ==
  m_toy_B_toy_W_m(m_toy_B_toy_W_p_2588["x"], m_toy_B_toy_W_q_2588["z"])
      = m_toy_B_toy_W_m(m_toy_B_toy_W_q_2588["x"], m_toy_B_toy_W_p_2588["z"])
    /\ m_toy_B_toy_W_m(m_toy_B_toy_W_p_2588["y"], m_toy_B_toy_W_q_2588["z"])
      = m_toy_B_toy_W_m(m_toy_B_toy_W_q_2588["y"], m_toy_B_toy_W_p_2588["z"])

(*
  @type: (() => Seq(Seq({ x: Int, y: Int, z: Int })));
*)
m_toy_C_toy_E_GPOW ==
  LET (*
    @type: (({ out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } }, Int) => { out: Seq(Seq({ x: Int, y: Int, z: Int })), q: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA70(m_toy_C_toy_E_s_1771, m_toy_C_toy_E_i_1771) ==
    LET (*
      @type: (() => Seq({ x: Int, y: Int, z: Int }));
    *)
    m_toy_C_toy_E_row ==
      LET (*
        @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
      *)
      __QUINT_LAMBDA69(m_toy_C_toy_E_l_1752, m_toy_C_toy_E_j_1752) ==
        Append(m_toy_C_toy_E_l_1752, (m_toy_C_toy_E_padd(m_toy_C_toy_E_l_1752[
          ((m_toy_C_toy_E_j_1752 + 1) + 1)
        ], m_toy_C_toy_E_s_1771["q"])))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA69, <<
        (m_toy_C_toy_E_ID), m_toy_C_toy_E_s_1771["q"]
      >>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA68(__quint_var33) == (0 + __quint_var33) - 1
      IN
      MkSeq((14 - 0), __QUINT_LAMBDA68)))
    IN
    [q |->
        m_toy_C_toy_E_padd((m_toy_C_toy_E_row)[(15 + 1)], m_toy_C_toy_E_s_1771[
          "q"
        ]),
      out |-> Append(m_toy_C_toy_E_s_1771["out"], (m_toy_C_toy_E_row))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA70, [q |-> m_toy_C_toy_E_G, out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA67(__quint_var32) == (0 + __quint_var32) - 1
  IN
  MkSeq((m_toy_C_toy_E_NIBBLES - 0), __QUINT_LAMBDA67)))[
    "out"
  ]

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_C_torsionPt(m_toy_C_i_435) ==
  IF m_toy_C_i_435 = 0
  THEN m_toy_C_toy_E_ID
  ELSE IF m_toy_C_i_435 = 1
  THEN m_toy_C_toy_E_T2
  ELSE IF m_toy_C_i_435 = 2
  THEN m_toy_C_toy_E_T4
  ELSE m_toy_C_toy_E_padd((m_toy_C_toy_E_T2), (m_toy_C_toy_E_T4))

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_C_toy_W_same(m_toy_C_toy_W_p_2588, m_toy_C_toy_W_q_2588) ==
  m_toy_C_toy_W_m(m_toy_C_toy_W_p_2588["x"], m_toy_C_toy_W_q_2588["z"])
      = m_toy_C_toy_W_m(m_toy_C_toy_W_q_2588["x"], m_toy_C_toy_W_p_2588["z"])
    /\ m_toy_C_toy_W_m(m_toy_C_toy_W_p_2588["y"], m_toy_C_toy_W_q_2588["z"])
      = m_toy_C_toy_W_m(m_toy_C_toy_W_q_2588["y"], m_toy_C_toy_W_p_2588["z"])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_A_toy_W_sameRatio(m_toy_A_toy_W_p_2550, m_toy_A_toy_W_q_2550) ==
  m_toy_A_toy_W_m(m_toy_A_toy_W_p_2550["y"], m_toy_A_toy_W_q_2550["x"])
    = m_toy_A_toy_W_m(m_toy_A_toy_W_p_2550["x"], m_toy_A_toy_W_q_2550["y"])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_B_toy_W_sameRatio(m_toy_B_toy_W_p_2550, m_toy_B_toy_W_q_2550) ==
  m_toy_B_toy_W_m(m_toy_B_toy_W_p_2550["y"], m_toy_B_toy_W_q_2550["x"])
    = m_toy_B_toy_W_m(m_toy_B_toy_W_p_2550["x"], m_toy_B_toy_W_q_2550["y"])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => Bool);
*)
m_toy_C_toy_W_sameRatio(m_toy_C_toy_W_p_2550, m_toy_C_toy_W_q_2550) ==
  m_toy_C_toy_W_m(m_toy_C_toy_W_p_2550["y"], m_toy_C_toy_W_q_2550["x"])
    = m_toy_C_toy_W_m(m_toy_C_toy_W_p_2550["x"], m_toy_C_toy_W_q_2550["y"])

(*
  @type: ((Int) => Bool);
*)
m_toy_A_recodings(m_toy_A_k_1050) ==
  (\A m_toy_A_t_1002 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var44 == DOMAIN (<<1, 2, 3, 4, 5>>)
    IN
    IF __quint_var44 = {}
    THEN {}
    ELSE (__quint_var44 \union {0}) \ {(Len(<<1, 2, 3, 4, 5>>))}:
      LET (*
        @type: (() => Seq({ addend: Int, power: Int }));
      *)
      m_toy_A_ds == m_toy_A_wnaf(m_toy_A_k_1050, (m_toy_A_t_1002 + 1), 2)
      IN
      (m_toy_A_valueOf((m_toy_A_ds)) = m_toy_A_k_1050
          /\ m_toy_A_proper((m_toy_A_ds), (m_toy_A_t_1002 + 1)))
        /\ Len((m_toy_A_ds))
          < m_toy_A_room((m_toy_A_PBITS), (m_toy_A_t_1002 + 1)))
    /\ (LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA90(m_toy_A_s_1017, m_toy_A_d_1017) ==
      4 * m_toy_A_s_1017 + m_toy_A_d_1017
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA90, 0, (m_toy_A_windows(m_toy_A_k_1050, (m_toy_A_L),
    2, (m_toy_A_N2))))
      + m_toy_A_L * 2 ^ 20)
      % m_toy_A_L
      = m_toy_A_k_1050 % m_toy_A_L
    /\ (m_toy_A_combValue(m_toy_A_k_1050, (m_toy_A_L), 2, 2, (m_toy_A_N2))
      + m_toy_A_L * 2 ^ 20)
      % m_toy_A_L
      = m_toy_A_k_1050 % m_toy_A_L

(*
  @type: ((Int) => Bool);
*)
m_toy_B_recodings(m_toy_B_k_1050) ==
  (\A m_toy_B_t_1002 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var53 == DOMAIN (<<1, 2, 3, 4, 5>>)
    IN
    IF __quint_var53 = {}
    THEN {}
    ELSE (__quint_var53 \union {0}) \ {(Len(<<1, 2, 3, 4, 5>>))}:
      LET (*
        @type: (() => Seq({ addend: Int, power: Int }));
      *)
      m_toy_B_ds == m_toy_B_wnaf(m_toy_B_k_1050, (m_toy_B_t_1002 + 1), 2)
      IN
      (m_toy_B_valueOf((m_toy_B_ds)) = m_toy_B_k_1050
          /\ m_toy_B_proper((m_toy_B_ds), (m_toy_B_t_1002 + 1)))
        /\ Len((m_toy_B_ds))
          < m_toy_B_room((m_toy_B_PBITS), (m_toy_B_t_1002 + 1)))
    /\ (LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA106(m_toy_B_s_1017, m_toy_B_d_1017) ==
      4 * m_toy_B_s_1017 + m_toy_B_d_1017
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA106, 0, (m_toy_B_windows(m_toy_B_k_1050, (m_toy_B_L),
    2, (m_toy_B_N2))))
      + m_toy_B_L * 2 ^ 20)
      % m_toy_B_L
      = m_toy_B_k_1050 % m_toy_B_L
    /\ (m_toy_B_combValue(m_toy_B_k_1050, (m_toy_B_L), 2, 2, (m_toy_B_N2))
      + m_toy_B_L * 2 ^ 20)
      % m_toy_B_L
      = m_toy_B_k_1050 % m_toy_B_L

(*
  @type: ((Int) => Bool);
*)
m_toy_C_recodings(m_toy_C_k_1050) ==
  (\A m_toy_C_t_1002 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var62 == DOMAIN (<<1, 2, 3, 4, 5>>)
    IN
    IF __quint_var62 = {}
    THEN {}
    ELSE (__quint_var62 \union {0}) \ {(Len(<<1, 2, 3, 4, 5>>))}:
      LET (*
        @type: (() => Seq({ addend: Int, power: Int }));
      *)
      m_toy_C_ds == m_toy_C_wnaf(m_toy_C_k_1050, (m_toy_C_t_1002 + 1), 2)
      IN
      (m_toy_C_valueOf((m_toy_C_ds)) = m_toy_C_k_1050
          /\ m_toy_C_proper((m_toy_C_ds), (m_toy_C_t_1002 + 1)))
        /\ Len((m_toy_C_ds))
          < m_toy_C_room((m_toy_C_PBITS), (m_toy_C_t_1002 + 1)))
    /\ (LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA122(m_toy_C_s_1017, m_toy_C_d_1017) ==
      4 * m_toy_C_s_1017 + m_toy_C_d_1017
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA122, 0, (m_toy_C_windows(m_toy_C_k_1050, (m_toy_C_L),
    2, (m_toy_C_N2))))
      + m_toy_C_L * 2 ^ 20)
      % m_toy_C_L
      = m_toy_C_k_1050 % m_toy_C_L
    /\ (m_toy_C_combValue(m_toy_C_k_1050, (m_toy_C_L), 2, 2, (m_toy_C_N2))
      + m_toy_C_L * 2 ^ 20)
      % m_toy_C_L
      = m_toy_C_k_1050 % m_toy_C_L

(*
  @type: ((Int) => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
*)
m_toy_A_toy_W_decodeExt(m_toy_A_toy_W_e_2818) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_low == m_toy_A_toy_W_e_2818 \div 2 ^ m_toy_A_toy_W_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_y == m_toy_A_toy_W_e_2818 % 2 ^ m_toy_A_toy_W_SIGN
  IN
  IF m_toy_A_toy_W_y >= m_toy_A_toy_W_P
  THEN [ok |-> FALSE, pt |-> m_toy_A_toy_W_NEUTRAL]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_z == m_toy_A_toy_W_sub(1, (m_toy_A_toy_W_sq((m_toy_A_toy_W_y))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_t ==
    m_toy_A_toy_W_sub(1, (m_toy_A_toy_W_m((m_toy_A_toy_W_D), (m_toy_A_toy_W_sq((m_toy_A_toy_W_y))))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_x0 ==
    m_toy_A_toy_W_m((m_toy_A_toy_W_pw((m_toy_A_toy_W_m((m_toy_A_toy_W_z), (m_toy_A_toy_W_t))),
    ((m_toy_A_toy_W_P - 3) \div 4))), (m_toy_A_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_W_x ==
    IF m_toy_A_toy_W_x0 % 2 /= m_toy_A_toy_W_low
    THEN m_toy_A_toy_W_x0
    ELSE (m_toy_A_toy_W_P - m_toy_A_toy_W_x0) % m_toy_A_toy_W_P
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_toy_W_p == m_toy_A_toy_W_phi((m_toy_A_toy_W_x), (m_toy_A_toy_W_y))
  IN
  [ok |->
      m_toy_A_toy_W_onTwist((m_toy_A_toy_W_p))
        /\ ~(m_toy_A_toy_W_x0 = 0 /\ m_toy_A_toy_W_low = 1),
    pt |-> m_toy_A_toy_W_p]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, Seq(Int), Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_byDigits(m_toy_A_toy_W_p_2927, m_toy_A_toy_W_digits_2927, m_toy_A_toy_W_w_2927) ==
  LET (*
    @type: (() => { a: Int, b: Int, c: Int, z: Int });
  *)
  m_toy_A_toy_W_two ==
    m_toy_A_toy_W_niels((m_toy_A_toy_W_dbl(m_toy_A_toy_W_p_2927)))
  IN
  LET (*
    @type: (() => Seq({ a: Int, b: Int, c: Int, z: Int }));
  *)
  m_toy_A_toy_W_odd ==
    LET (*
      @type: (({ out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } }, Int) => { out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } });
    *)
    __QUINT_LAMBDA5(m_toy_A_toy_W_s_2862, m_toy_A_toy_W_i_2862) ==
      [q |-> m_toy_A_toy_W_addN(m_toy_A_toy_W_s_2862["q"], (m_toy_A_toy_W_two)),
        out |->
          Append(m_toy_A_toy_W_s_2862["out"], (m_toy_A_toy_W_niels(m_toy_A_toy_W_s_2862[
            "q"
          ])))]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA5, [q |-> m_toy_A_toy_W_p_2927, out |-> <<>>], (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
    IN
    MkSeq((2 ^ (m_toy_A_toy_W_w_2927 - 1) - 0), __QUINT_LAMBDA4)))[
      "out"
    ]
  IN
  LET (*
    @type: (({ first: Bool, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { first: Bool, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA8(m_toy_A_toy_W_s_2921, m_toy_A_toy_W_d_2921) ==
    LET (*
      @type: (() => { a: Int, b: Int, c: Int, z: Int });
    *)
    m_toy_A_toy_W_n ==
      IF m_toy_A_toy_W_d_2921 > 0
      THEN (m_toy_A_toy_W_odd)[(m_toy_A_toy_W_d_2921 \div 2 + 1)]
      ELSE m_toy_A_toy_W_negNiels((m_toy_A_toy_W_odd)[
        ((-m_toy_A_toy_W_d_2921) \div 2 + 1)
      ])
    IN
    IF m_toy_A_toy_W_s_2921["first"]
    THEN [first |-> FALSE, r |-> m_toy_A_toy_W_fromNiels((m_toy_A_toy_W_n))]
    ELSE [first |-> FALSE,
      r |->
        m_toy_A_toy_W_addN(LET (*
          @type: (({ t: Int, x: Int, y: Int, z: Int }, Int) => { t: Int, x: Int, y: Int, z: Int });
        *)
        __QUINT_LAMBDA7(m_toy_A_toy_W_q_2913, m_toy_A_toy_W_i_2913) ==
          m_toy_A_toy_W_dbl(m_toy_A_toy_W_q_2913)
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA7, m_toy_A_toy_W_s_2921["r"], (LET (*
          @type: ((Int) => Int);
        *)
        __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
        IN
        MkSeq((m_toy_A_toy_W_w_2927 - 0), __QUINT_LAMBDA6))), (m_toy_A_toy_W_n))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, [first |-> TRUE, r |-> m_toy_A_toy_W_NEUTRAL],
  m_toy_A_toy_W_digits_2927)[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_normal(m_toy_A_toy_E_p_1859) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_A_toy_E_zi == m_toy_A_toy_E_finv(m_toy_A_toy_E_p_1859["z"])
  IN
  [x |-> m_toy_A_toy_E_fmul(m_toy_A_toy_E_p_1859["x"], (m_toy_A_toy_E_zi)),
    y |-> m_toy_A_toy_E_fmul(m_toy_A_toy_E_p_1859["y"], (m_toy_A_toy_E_zi)),
    z |-> 1]

(*
  @type: ((Int, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_smul(m_toy_A_toy_E_k_1716, m_toy_A_toy_E_p_1716) ==
  LET (*
    @type: (() => Seq({ x: Int, y: Int, z: Int }));
  *)
  m_toy_A_toy_E_multiples ==
    LET (*
      @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
    *)
    __QUINT_LAMBDA12(m_toy_A_toy_E_l_1639, m_toy_A_toy_E_i_1639) ==
      Append(m_toy_A_toy_E_l_1639, (m_toy_A_toy_E_padd(m_toy_A_toy_E_l_1639[
        ((m_toy_A_toy_E_i_1639 + 1) + 1)
      ], m_toy_A_toy_E_p_1716)))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA12, <<
      (m_toy_A_toy_E_ID), m_toy_A_toy_E_p_1716
    >>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA11(__quint_var5) == (0 + __quint_var5) - 1
    IN
    MkSeq((14 - 0), __QUINT_LAMBDA11)))
  IN
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int }, w: Int }, Int) => { k: Int, r: { x: Int, y: Int, z: Int }, w: Int });
  *)
  __QUINT_LAMBDA14(m_toy_A_toy_E_s_1711, m_toy_A_toy_E_i_1711) ==
    LET (*
      @type: (() => { x: Int, y: Int, z: Int });
    *)
    m_toy_A_toy_E_r4 ==
      IF m_toy_A_toy_E_s_1711["r"] = m_toy_A_toy_E_ID
      THEN m_toy_A_toy_E_ID
      ELSE m_toy_A_toy_E_p4((m_toy_A_toy_E_p4(m_toy_A_toy_E_s_1711["r"])))
    IN
    LET (*
      @type: (() => Int);
    *)
    m_toy_A_toy_E_d == m_toy_A_toy_E_s_1711["k"] \div m_toy_A_toy_E_s_1711["w"]
    IN
    [w |-> m_toy_A_toy_E_s_1711["w"] \div 16,
      k |-> m_toy_A_toy_E_s_1711["k"] % m_toy_A_toy_E_s_1711["w"],
      r |->
        IF m_toy_A_toy_E_d = 0
        THEN m_toy_A_toy_E_r4
        ELSE m_toy_A_toy_E_padd((m_toy_A_toy_E_r4), (m_toy_A_toy_E_multiples)[
          (m_toy_A_toy_E_d + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA14, [w |-> 16 ^ (m_toy_A_toy_E_NIBBLES - 1),
    k |-> m_toy_A_toy_E_k_1716 % 16 ^ m_toy_A_toy_E_NIBBLES,
    r |-> m_toy_A_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA13(__quint_var6) == (0 + __quint_var6) - 1
  IN
  MkSeq((m_toy_A_toy_E_NIBBLES - 0), __QUINT_LAMBDA13)))[
    "r"
  ]

(*
  @type: ((Int) => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
*)
m_toy_B_toy_W_decodeExt(m_toy_B_toy_W_e_2818) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_low == m_toy_B_toy_W_e_2818 \div 2 ^ m_toy_B_toy_W_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_y == m_toy_B_toy_W_e_2818 % 2 ^ m_toy_B_toy_W_SIGN
  IN
  IF m_toy_B_toy_W_y >= m_toy_B_toy_W_P
  THEN [ok |-> FALSE, pt |-> m_toy_B_toy_W_NEUTRAL]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_z == m_toy_B_toy_W_sub(1, (m_toy_B_toy_W_sq((m_toy_B_toy_W_y))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_t ==
    m_toy_B_toy_W_sub(1, (m_toy_B_toy_W_m((m_toy_B_toy_W_D), (m_toy_B_toy_W_sq((m_toy_B_toy_W_y))))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_x0 ==
    m_toy_B_toy_W_m((m_toy_B_toy_W_pw((m_toy_B_toy_W_m((m_toy_B_toy_W_z), (m_toy_B_toy_W_t))),
    ((m_toy_B_toy_W_P - 3) \div 4))), (m_toy_B_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_W_x ==
    IF m_toy_B_toy_W_x0 % 2 /= m_toy_B_toy_W_low
    THEN m_toy_B_toy_W_x0
    ELSE (m_toy_B_toy_W_P - m_toy_B_toy_W_x0) % m_toy_B_toy_W_P
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_toy_W_p == m_toy_B_toy_W_phi((m_toy_B_toy_W_x), (m_toy_B_toy_W_y))
  IN
  [ok |->
      m_toy_B_toy_W_onTwist((m_toy_B_toy_W_p))
        /\ ~(m_toy_B_toy_W_x0 = 0 /\ m_toy_B_toy_W_low = 1),
    pt |-> m_toy_B_toy_W_p]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, Seq(Int), Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_byDigits(m_toy_B_toy_W_p_2927, m_toy_B_toy_W_digits_2927, m_toy_B_toy_W_w_2927) ==
  LET (*
    @type: (() => { a: Int, b: Int, c: Int, z: Int });
  *)
  m_toy_B_toy_W_two ==
    m_toy_B_toy_W_niels((m_toy_B_toy_W_dbl(m_toy_B_toy_W_p_2927)))
  IN
  LET (*
    @type: (() => Seq({ a: Int, b: Int, c: Int, z: Int }));
  *)
  m_toy_B_toy_W_odd ==
    LET (*
      @type: (({ out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } }, Int) => { out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } });
    *)
    __QUINT_LAMBDA22(m_toy_B_toy_W_s_2862, m_toy_B_toy_W_i_2862) ==
      [q |-> m_toy_B_toy_W_addN(m_toy_B_toy_W_s_2862["q"], (m_toy_B_toy_W_two)),
        out |->
          Append(m_toy_B_toy_W_s_2862["out"], (m_toy_B_toy_W_niels(m_toy_B_toy_W_s_2862[
            "q"
          ])))]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA22, [q |-> m_toy_B_toy_W_p_2927, out |-> <<>>],
    (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA21(__quint_var10) == (0 + __quint_var10) - 1
    IN
    MkSeq((2 ^ (m_toy_B_toy_W_w_2927 - 1) - 0), __QUINT_LAMBDA21)))[
      "out"
    ]
  IN
  LET (*
    @type: (({ first: Bool, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { first: Bool, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA25(m_toy_B_toy_W_s_2921, m_toy_B_toy_W_d_2921) ==
    LET (*
      @type: (() => { a: Int, b: Int, c: Int, z: Int });
    *)
    m_toy_B_toy_W_n ==
      IF m_toy_B_toy_W_d_2921 > 0
      THEN (m_toy_B_toy_W_odd)[(m_toy_B_toy_W_d_2921 \div 2 + 1)]
      ELSE m_toy_B_toy_W_negNiels((m_toy_B_toy_W_odd)[
        ((-m_toy_B_toy_W_d_2921) \div 2 + 1)
      ])
    IN
    IF m_toy_B_toy_W_s_2921["first"]
    THEN [first |-> FALSE, r |-> m_toy_B_toy_W_fromNiels((m_toy_B_toy_W_n))]
    ELSE [first |-> FALSE,
      r |->
        m_toy_B_toy_W_addN(LET (*
          @type: (({ t: Int, x: Int, y: Int, z: Int }, Int) => { t: Int, x: Int, y: Int, z: Int });
        *)
        __QUINT_LAMBDA24(m_toy_B_toy_W_q_2913, m_toy_B_toy_W_i_2913) ==
          m_toy_B_toy_W_dbl(m_toy_B_toy_W_q_2913)
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA24, m_toy_B_toy_W_s_2921["r"], (LET (*
          @type: ((Int) => Int);
        *)
        __QUINT_LAMBDA23(__quint_var11) == (0 + __quint_var11) - 1
        IN
        MkSeq((m_toy_B_toy_W_w_2927 - 0), __QUINT_LAMBDA23))), (m_toy_B_toy_W_n))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA25, [first |-> TRUE, r |-> m_toy_B_toy_W_NEUTRAL],
  m_toy_B_toy_W_digits_2927)[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_normal(m_toy_B_toy_E_p_1859) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_B_toy_E_zi == m_toy_B_toy_E_finv(m_toy_B_toy_E_p_1859["z"])
  IN
  [x |-> m_toy_B_toy_E_fmul(m_toy_B_toy_E_p_1859["x"], (m_toy_B_toy_E_zi)),
    y |-> m_toy_B_toy_E_fmul(m_toy_B_toy_E_p_1859["y"], (m_toy_B_toy_E_zi)),
    z |-> 1]

(*
  @type: ((Int, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_smul(m_toy_B_toy_E_k_1716, m_toy_B_toy_E_p_1716) ==
  LET (*
    @type: (() => Seq({ x: Int, y: Int, z: Int }));
  *)
  m_toy_B_toy_E_multiples ==
    LET (*
      @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
    *)
    __QUINT_LAMBDA29(m_toy_B_toy_E_l_1639, m_toy_B_toy_E_i_1639) ==
      Append(m_toy_B_toy_E_l_1639, (m_toy_B_toy_E_padd(m_toy_B_toy_E_l_1639[
        ((m_toy_B_toy_E_i_1639 + 1) + 1)
      ], m_toy_B_toy_E_p_1716)))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA29, <<
      (m_toy_B_toy_E_ID), m_toy_B_toy_E_p_1716
    >>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA28(__quint_var13) == (0 + __quint_var13) - 1
    IN
    MkSeq((14 - 0), __QUINT_LAMBDA28)))
  IN
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int }, w: Int }, Int) => { k: Int, r: { x: Int, y: Int, z: Int }, w: Int });
  *)
  __QUINT_LAMBDA31(m_toy_B_toy_E_s_1711, m_toy_B_toy_E_i_1711) ==
    LET (*
      @type: (() => { x: Int, y: Int, z: Int });
    *)
    m_toy_B_toy_E_r4 ==
      IF m_toy_B_toy_E_s_1711["r"] = m_toy_B_toy_E_ID
      THEN m_toy_B_toy_E_ID
      ELSE m_toy_B_toy_E_p4((m_toy_B_toy_E_p4(m_toy_B_toy_E_s_1711["r"])))
    IN
    LET (*
      @type: (() => Int);
    *)
    m_toy_B_toy_E_d == m_toy_B_toy_E_s_1711["k"] \div m_toy_B_toy_E_s_1711["w"]
    IN
    [w |-> m_toy_B_toy_E_s_1711["w"] \div 16,
      k |-> m_toy_B_toy_E_s_1711["k"] % m_toy_B_toy_E_s_1711["w"],
      r |->
        IF m_toy_B_toy_E_d = 0
        THEN m_toy_B_toy_E_r4
        ELSE m_toy_B_toy_E_padd((m_toy_B_toy_E_r4), (m_toy_B_toy_E_multiples)[
          (m_toy_B_toy_E_d + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA31, [w |-> 16 ^ (m_toy_B_toy_E_NIBBLES - 1),
    k |-> m_toy_B_toy_E_k_1716 % 16 ^ m_toy_B_toy_E_NIBBLES,
    r |-> m_toy_B_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA30(__quint_var14) == (0 + __quint_var14) - 1
  IN
  MkSeq((m_toy_B_toy_E_NIBBLES - 0), __QUINT_LAMBDA30)))[
    "r"
  ]

(*
  @type: ((Int) => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
*)
m_toy_C_toy_W_decodeExt(m_toy_C_toy_W_e_2818) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_low == m_toy_C_toy_W_e_2818 \div 2 ^ m_toy_C_toy_W_SIGN % 2
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_y == m_toy_C_toy_W_e_2818 % 2 ^ m_toy_C_toy_W_SIGN
  IN
  IF m_toy_C_toy_W_y >= m_toy_C_toy_W_P
  THEN [ok |-> FALSE, pt |-> m_toy_C_toy_W_NEUTRAL]
  ELSE LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_z == m_toy_C_toy_W_sub(1, (m_toy_C_toy_W_sq((m_toy_C_toy_W_y))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_t ==
    m_toy_C_toy_W_sub(1, (m_toy_C_toy_W_m((m_toy_C_toy_W_D), (m_toy_C_toy_W_sq((m_toy_C_toy_W_y))))))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_x0 ==
    m_toy_C_toy_W_m((m_toy_C_toy_W_pw((m_toy_C_toy_W_m((m_toy_C_toy_W_z), (m_toy_C_toy_W_t))),
    ((m_toy_C_toy_W_P - 3) \div 4))), (m_toy_C_toy_W_z))
  IN
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_W_x ==
    IF m_toy_C_toy_W_x0 % 2 /= m_toy_C_toy_W_low
    THEN m_toy_C_toy_W_x0
    ELSE (m_toy_C_toy_W_P - m_toy_C_toy_W_x0) % m_toy_C_toy_W_P
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_toy_W_p == m_toy_C_toy_W_phi((m_toy_C_toy_W_x), (m_toy_C_toy_W_y))
  IN
  [ok |->
      m_toy_C_toy_W_onTwist((m_toy_C_toy_W_p))
        /\ ~(m_toy_C_toy_W_x0 = 0 /\ m_toy_C_toy_W_low = 1),
    pt |-> m_toy_C_toy_W_p]

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, Seq(Int), Int) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_byDigits(m_toy_C_toy_W_p_2927, m_toy_C_toy_W_digits_2927, m_toy_C_toy_W_w_2927) ==
  LET (*
    @type: (() => { a: Int, b: Int, c: Int, z: Int });
  *)
  m_toy_C_toy_W_two ==
    m_toy_C_toy_W_niels((m_toy_C_toy_W_dbl(m_toy_C_toy_W_p_2927)))
  IN
  LET (*
    @type: (() => Seq({ a: Int, b: Int, c: Int, z: Int }));
  *)
  m_toy_C_toy_W_odd ==
    LET (*
      @type: (({ out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } }, Int) => { out: Seq({ a: Int, b: Int, c: Int, z: Int }), q: { t: Int, x: Int, y: Int, z: Int } });
    *)
    __QUINT_LAMBDA39(m_toy_C_toy_W_s_2862, m_toy_C_toy_W_i_2862) ==
      [q |-> m_toy_C_toy_W_addN(m_toy_C_toy_W_s_2862["q"], (m_toy_C_toy_W_two)),
        out |->
          Append(m_toy_C_toy_W_s_2862["out"], (m_toy_C_toy_W_niels(m_toy_C_toy_W_s_2862[
            "q"
          ])))]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA39, [q |-> m_toy_C_toy_W_p_2927, out |-> <<>>],
    (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA38(__quint_var18) == (0 + __quint_var18) - 1
    IN
    MkSeq((2 ^ (m_toy_C_toy_W_w_2927 - 1) - 0), __QUINT_LAMBDA38)))[
      "out"
    ]
  IN
  LET (*
    @type: (({ first: Bool, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { first: Bool, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA42(m_toy_C_toy_W_s_2921, m_toy_C_toy_W_d_2921) ==
    LET (*
      @type: (() => { a: Int, b: Int, c: Int, z: Int });
    *)
    m_toy_C_toy_W_n ==
      IF m_toy_C_toy_W_d_2921 > 0
      THEN (m_toy_C_toy_W_odd)[(m_toy_C_toy_W_d_2921 \div 2 + 1)]
      ELSE m_toy_C_toy_W_negNiels((m_toy_C_toy_W_odd)[
        ((-m_toy_C_toy_W_d_2921) \div 2 + 1)
      ])
    IN
    IF m_toy_C_toy_W_s_2921["first"]
    THEN [first |-> FALSE, r |-> m_toy_C_toy_W_fromNiels((m_toy_C_toy_W_n))]
    ELSE [first |-> FALSE,
      r |->
        m_toy_C_toy_W_addN(LET (*
          @type: (({ t: Int, x: Int, y: Int, z: Int }, Int) => { t: Int, x: Int, y: Int, z: Int });
        *)
        __QUINT_LAMBDA41(m_toy_C_toy_W_q_2913, m_toy_C_toy_W_i_2913) ==
          m_toy_C_toy_W_dbl(m_toy_C_toy_W_q_2913)
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA41, m_toy_C_toy_W_s_2921["r"], (LET (*
          @type: ((Int) => Int);
        *)
        __QUINT_LAMBDA40(__quint_var19) == (0 + __quint_var19) - 1
        IN
        MkSeq((m_toy_C_toy_W_w_2927 - 0), __QUINT_LAMBDA40))), (m_toy_C_toy_W_n))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA42, [first |-> TRUE, r |-> m_toy_C_toy_W_NEUTRAL],
  m_toy_C_toy_W_digits_2927)[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_normal(m_toy_C_toy_E_p_1859) ==
  LET (*
    @type: (() => Int);
  *)
  m_toy_C_toy_E_zi == m_toy_C_toy_E_finv(m_toy_C_toy_E_p_1859["z"])
  IN
  [x |-> m_toy_C_toy_E_fmul(m_toy_C_toy_E_p_1859["x"], (m_toy_C_toy_E_zi)),
    y |-> m_toy_C_toy_E_fmul(m_toy_C_toy_E_p_1859["y"], (m_toy_C_toy_E_zi)),
    z |-> 1]

(*
  @type: ((Int, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_smul(m_toy_C_toy_E_k_1716, m_toy_C_toy_E_p_1716) ==
  LET (*
    @type: (() => Seq({ x: Int, y: Int, z: Int }));
  *)
  m_toy_C_toy_E_multiples ==
    LET (*
      @type: ((Seq({ x: Int, y: Int, z: Int }), Int) => Seq({ x: Int, y: Int, z: Int }));
    *)
    __QUINT_LAMBDA46(m_toy_C_toy_E_l_1639, m_toy_C_toy_E_i_1639) ==
      Append(m_toy_C_toy_E_l_1639, (m_toy_C_toy_E_padd(m_toy_C_toy_E_l_1639[
        ((m_toy_C_toy_E_i_1639 + 1) + 1)
      ], m_toy_C_toy_E_p_1716)))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA46, <<
      (m_toy_C_toy_E_ID), m_toy_C_toy_E_p_1716
    >>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA45(__quint_var21) == (0 + __quint_var21) - 1
    IN
    MkSeq((14 - 0), __QUINT_LAMBDA45)))
  IN
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int }, w: Int }, Int) => { k: Int, r: { x: Int, y: Int, z: Int }, w: Int });
  *)
  __QUINT_LAMBDA48(m_toy_C_toy_E_s_1711, m_toy_C_toy_E_i_1711) ==
    LET (*
      @type: (() => { x: Int, y: Int, z: Int });
    *)
    m_toy_C_toy_E_r4 ==
      IF m_toy_C_toy_E_s_1711["r"] = m_toy_C_toy_E_ID
      THEN m_toy_C_toy_E_ID
      ELSE m_toy_C_toy_E_p4((m_toy_C_toy_E_p4(m_toy_C_toy_E_s_1711["r"])))
    IN
    LET (*
      @type: (() => Int);
    *)
    m_toy_C_toy_E_d == m_toy_C_toy_E_s_1711["k"] \div m_toy_C_toy_E_s_1711["w"]
    IN
    [w |-> m_toy_C_toy_E_s_1711["w"] \div 16,
      k |-> m_toy_C_toy_E_s_1711["k"] % m_toy_C_toy_E_s_1711["w"],
      r |->
        IF m_toy_C_toy_E_d = 0
        THEN m_toy_C_toy_E_r4
        ELSE m_toy_C_toy_E_padd((m_toy_C_toy_E_r4), (m_toy_C_toy_E_multiples)[
          (m_toy_C_toy_E_d + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA48, [w |-> 16 ^ (m_toy_C_toy_E_NIBBLES - 1),
    k |-> m_toy_C_toy_E_k_1716 % 16 ^ m_toy_C_toy_E_NIBBLES,
    r |-> m_toy_C_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA47(__quint_var22) == (0 + __quint_var22) - 1
  IN
  MkSeq((m_toy_C_toy_E_NIBBLES - 0), __QUINT_LAMBDA47)))[
    "r"
  ]

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_smulG(m_toy_A_toy_E_k_1833) ==
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int } }, Int) => { k: Int, r: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA56(m_toy_A_toy_E_s_1829, m_toy_A_toy_E_i_1829) ==
    IF m_toy_A_toy_E_s_1829["k"] % 16 = 0
    THEN [k |-> m_toy_A_toy_E_s_1829["k"] \div 16,
      r |-> m_toy_A_toy_E_s_1829["r"]]
    ELSE [k |-> m_toy_A_toy_E_s_1829["k"] \div 16,
      r |->
        m_toy_A_toy_E_padd(m_toy_A_toy_E_s_1829["r"], (m_toy_A_toy_E_GPOW)[
          (m_toy_A_toy_E_i_1829 + 1)
        ][
          ((m_toy_A_toy_E_s_1829["k"] % 16) + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA56, [k |-> m_toy_A_toy_E_k_1833,
    r |-> m_toy_A_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA55(__quint_var26) == (0 + __quint_var26) - 1
  IN
  MkSeq((m_toy_A_toy_E_NIBBLES - 0), __QUINT_LAMBDA55)))[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_iso(m_toy_A_p_474) ==
  m_toy_A_toy_W_phi(((m_toy_A_P - m_toy_A_p_474["x"]) % m_toy_A_P), m_toy_A_p_474[
    "y"
  ])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_plus(m_toy_A_toy_W_p_2528, m_toy_A_toy_W_q_2528) ==
  m_toy_A_toy_W_addN(m_toy_A_toy_W_p_2528, (m_toy_A_toy_W_niels(m_toy_A_toy_W_q_2528)))

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_smulG(m_toy_B_toy_E_k_1833) ==
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int } }, Int) => { k: Int, r: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA64(m_toy_B_toy_E_s_1829, m_toy_B_toy_E_i_1829) ==
    IF m_toy_B_toy_E_s_1829["k"] % 16 = 0
    THEN [k |-> m_toy_B_toy_E_s_1829["k"] \div 16,
      r |-> m_toy_B_toy_E_s_1829["r"]]
    ELSE [k |-> m_toy_B_toy_E_s_1829["k"] \div 16,
      r |->
        m_toy_B_toy_E_padd(m_toy_B_toy_E_s_1829["r"], (m_toy_B_toy_E_GPOW)[
          (m_toy_B_toy_E_i_1829 + 1)
        ][
          ((m_toy_B_toy_E_s_1829["k"] % 16) + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA64, [k |-> m_toy_B_toy_E_k_1833,
    r |-> m_toy_B_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA63(__quint_var30) == (0 + __quint_var30) - 1
  IN
  MkSeq((m_toy_B_toy_E_NIBBLES - 0), __QUINT_LAMBDA63)))[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_iso(m_toy_B_p_474) ==
  m_toy_B_toy_W_phi(((m_toy_B_P - m_toy_B_p_474["x"]) % m_toy_B_P), m_toy_B_p_474[
    "y"
  ])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_plus(m_toy_B_toy_W_p_2528, m_toy_B_toy_W_q_2528) ==
  m_toy_B_toy_W_addN(m_toy_B_toy_W_p_2528, (m_toy_B_toy_W_niels(m_toy_B_toy_W_q_2528)))

(*
  @type: ((Int) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_smulG(m_toy_C_toy_E_k_1833) ==
  LET (*
    @type: (({ k: Int, r: { x: Int, y: Int, z: Int } }, Int) => { k: Int, r: { x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA72(m_toy_C_toy_E_s_1829, m_toy_C_toy_E_i_1829) ==
    IF m_toy_C_toy_E_s_1829["k"] % 16 = 0
    THEN [k |-> m_toy_C_toy_E_s_1829["k"] \div 16,
      r |-> m_toy_C_toy_E_s_1829["r"]]
    ELSE [k |-> m_toy_C_toy_E_s_1829["k"] \div 16,
      r |->
        m_toy_C_toy_E_padd(m_toy_C_toy_E_s_1829["r"], (m_toy_C_toy_E_GPOW)[
          (m_toy_C_toy_E_i_1829 + 1)
        ][
          ((m_toy_C_toy_E_s_1829["k"] % 16) + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA72, [k |-> m_toy_C_toy_E_k_1833,
    r |-> m_toy_C_toy_E_ID], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA71(__quint_var34) == (0 + __quint_var34) - 1
  IN
  MkSeq((m_toy_C_toy_E_NIBBLES - 0), __QUINT_LAMBDA71)))[
    "r"
  ]

(*
  @type: (({ x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_iso(m_toy_C_p_474) ==
  m_toy_C_toy_W_phi(((m_toy_C_P - m_toy_C_p_474["x"]) % m_toy_C_P), m_toy_C_p_474[
    "y"
  ])

(*
  @type: (({ t: Int, x: Int, y: Int, z: Int }, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_plus(m_toy_C_toy_W_p_2528, m_toy_C_toy_W_q_2528) ==
  m_toy_C_toy_W_addN(m_toy_C_toy_W_p_2528, (m_toy_C_toy_W_niels(m_toy_C_toy_W_q_2528)))

(*
  @type: (() => Bool);
*)
stepRecodings ==
  \E c \in 0 .. 2:
    \E k \in 0 .. 2 ^ (PBITS_OF)[(c + 1)] - 1:
      holds'
        := (IF c = 0
        THEN m_toy_A_recodings(k)
        ELSE IF c = 1 THEN m_toy_B_recodings(k) ELSE m_toy_C_recodings(k))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_mul(m_toy_A_k_518, m_toy_A_p_518) ==
  m_toy_A_toy_W_byDigits(m_toy_A_p_518, (m_toy_A_windows(m_toy_A_k_518, (m_toy_A_L),
  2, (m_toy_A_N2))), 2)

(*
  @type: (({ x: Int, y: Int, z: Int }) => Int);
*)
m_toy_A_toy_E_encode(m_toy_A_toy_E_p_1881) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_toy_E_q == m_toy_A_toy_E_normal(m_toy_A_toy_E_p_1881)
  IN
  (m_toy_A_toy_E_q)["y"] + ((m_toy_A_toy_E_q)["x"] % 2) * 2 ^ m_toy_A_toy_E_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_A_toy_E_primePart(m_toy_A_toy_E_p_2038) ==
  m_toy_A_toy_E_smul((m_toy_A_toy_E_QUARTER), (m_toy_A_toy_E_p4(m_toy_A_toy_E_p_2038)))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_mul(m_toy_B_k_518, m_toy_B_p_518) ==
  m_toy_B_toy_W_byDigits(m_toy_B_p_518, (m_toy_B_windows(m_toy_B_k_518, (m_toy_B_L),
  2, (m_toy_B_N2))), 2)

(*
  @type: (({ x: Int, y: Int, z: Int }) => Int);
*)
m_toy_B_toy_E_encode(m_toy_B_toy_E_p_1881) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_toy_E_q == m_toy_B_toy_E_normal(m_toy_B_toy_E_p_1881)
  IN
  (m_toy_B_toy_E_q)["y"] + ((m_toy_B_toy_E_q)["x"] % 2) * 2 ^ m_toy_B_toy_E_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_B_toy_E_primePart(m_toy_B_toy_E_p_2038) ==
  m_toy_B_toy_E_smul((m_toy_B_toy_E_QUARTER), (m_toy_B_toy_E_p4(m_toy_B_toy_E_p_2038)))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_mul(m_toy_C_k_518, m_toy_C_p_518) ==
  m_toy_C_toy_W_byDigits(m_toy_C_p_518, (m_toy_C_windows(m_toy_C_k_518, (m_toy_C_L),
  2, (m_toy_C_N2))), 2)

(*
  @type: (({ x: Int, y: Int, z: Int }) => Int);
*)
m_toy_C_toy_E_encode(m_toy_C_toy_E_p_1881) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_toy_E_q == m_toy_C_toy_E_normal(m_toy_C_toy_E_p_1881)
  IN
  (m_toy_C_toy_E_q)["y"] + ((m_toy_C_toy_E_q)["x"] % 2) * 2 ^ m_toy_C_toy_E_SIGN

(*
  @type: (({ x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
m_toy_C_toy_E_primePart(m_toy_C_toy_E_p_2038) ==
  m_toy_C_toy_E_smul((m_toy_C_toy_E_QUARTER), (m_toy_C_toy_E_p4(m_toy_C_toy_E_p_2038)))

(*
  @type: ((Int, Int) => { x: Int, y: Int, z: Int });
*)
m_toy_A_point(m_toy_A_a_451, m_toy_A_i_451) ==
  m_toy_A_toy_E_normal((m_toy_A_toy_E_padd((m_toy_A_toy_E_smulG(m_toy_A_a_451)),
  (m_toy_A_torsionPt(m_toy_A_i_451)))))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_toy_W_times(m_toy_A_toy_W_k_3033, m_toy_A_toy_W_p_3033) ==
  LET (*
    @type: (({ k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA58(m_toy_A_toy_W_s_3029, m_toy_A_toy_W_i_3029) ==
    IF m_toy_A_toy_W_s_3029["k"] = 0
    THEN m_toy_A_toy_W_s_3029
    ELSE [k |-> m_toy_A_toy_W_s_3029["k"] \div 2,
      r |->
        IF m_toy_A_toy_W_s_3029["k"] % 2 = 1
        THEN m_toy_A_toy_W_plus(m_toy_A_toy_W_s_3029["r"], m_toy_A_toy_W_s_3029[
          "q"
        ])
        ELSE m_toy_A_toy_W_s_3029["r"],
      q |-> m_toy_A_toy_W_dbl(m_toy_A_toy_W_s_3029["q"])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA58, [k |-> m_toy_A_toy_W_k_3033,
    r |-> m_toy_A_toy_W_NEUTRAL,
    q |-> m_toy_A_toy_W_p_3033], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA57(__quint_var27) == (0 + __quint_var27) - 1
  IN
  MkSeq((m_toy_A_toy_W_PBITS - 0), __QUINT_LAMBDA57)))[
    "r"
  ]

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_mul3(m_toy_A_k_541, m_toy_A_p_541) ==
  m_toy_A_toy_W_byDigits(m_toy_A_p_541, (m_toy_A_windows(m_toy_A_k_541, (m_toy_A_L),
  3, (m_toy_A_N2))), 3)

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_A_TABLE == m_toy_A_shifted((m_toy_A_iso((m_toy_A_toy_E_G))))

(*
  @type: ((Int, Int) => { x: Int, y: Int, z: Int });
*)
m_toy_B_point(m_toy_B_a_451, m_toy_B_i_451) ==
  m_toy_B_toy_E_normal((m_toy_B_toy_E_padd((m_toy_B_toy_E_smulG(m_toy_B_a_451)),
  (m_toy_B_torsionPt(m_toy_B_i_451)))))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_toy_W_times(m_toy_B_toy_W_k_3033, m_toy_B_toy_W_p_3033) ==
  LET (*
    @type: (({ k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA66(m_toy_B_toy_W_s_3029, m_toy_B_toy_W_i_3029) ==
    IF m_toy_B_toy_W_s_3029["k"] = 0
    THEN m_toy_B_toy_W_s_3029
    ELSE [k |-> m_toy_B_toy_W_s_3029["k"] \div 2,
      r |->
        IF m_toy_B_toy_W_s_3029["k"] % 2 = 1
        THEN m_toy_B_toy_W_plus(m_toy_B_toy_W_s_3029["r"], m_toy_B_toy_W_s_3029[
          "q"
        ])
        ELSE m_toy_B_toy_W_s_3029["r"],
      q |-> m_toy_B_toy_W_dbl(m_toy_B_toy_W_s_3029["q"])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA66, [k |-> m_toy_B_toy_W_k_3033,
    r |-> m_toy_B_toy_W_NEUTRAL,
    q |-> m_toy_B_toy_W_p_3033], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA65(__quint_var31) == (0 + __quint_var31) - 1
  IN
  MkSeq((m_toy_B_toy_W_PBITS - 0), __QUINT_LAMBDA65)))[
    "r"
  ]

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_mul3(m_toy_B_k_541, m_toy_B_p_541) ==
  m_toy_B_toy_W_byDigits(m_toy_B_p_541, (m_toy_B_windows(m_toy_B_k_541, (m_toy_B_L),
  3, (m_toy_B_N2))), 3)

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_B_TABLE == m_toy_B_shifted((m_toy_B_iso((m_toy_B_toy_E_G))))

(*
  @type: ((Int, Int) => { x: Int, y: Int, z: Int });
*)
m_toy_C_point(m_toy_C_a_451, m_toy_C_i_451) ==
  m_toy_C_toy_E_normal((m_toy_C_toy_E_padd((m_toy_C_toy_E_smulG(m_toy_C_a_451)),
  (m_toy_C_torsionPt(m_toy_C_i_451)))))

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_toy_W_times(m_toy_C_toy_W_k_3033, m_toy_C_toy_W_p_3033) ==
  LET (*
    @type: (({ k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } }, Int) => { k: Int, q: { t: Int, x: Int, y: Int, z: Int }, r: { t: Int, x: Int, y: Int, z: Int } });
  *)
  __QUINT_LAMBDA74(m_toy_C_toy_W_s_3029, m_toy_C_toy_W_i_3029) ==
    IF m_toy_C_toy_W_s_3029["k"] = 0
    THEN m_toy_C_toy_W_s_3029
    ELSE [k |-> m_toy_C_toy_W_s_3029["k"] \div 2,
      r |->
        IF m_toy_C_toy_W_s_3029["k"] % 2 = 1
        THEN m_toy_C_toy_W_plus(m_toy_C_toy_W_s_3029["r"], m_toy_C_toy_W_s_3029[
          "q"
        ])
        ELSE m_toy_C_toy_W_s_3029["r"],
      q |-> m_toy_C_toy_W_dbl(m_toy_C_toy_W_s_3029["q"])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA74, [k |-> m_toy_C_toy_W_k_3033,
    r |-> m_toy_C_toy_W_NEUTRAL,
    q |-> m_toy_C_toy_W_p_3033], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA73(__quint_var35) == (0 + __quint_var35) - 1
  IN
  MkSeq((m_toy_C_toy_W_PBITS - 0), __QUINT_LAMBDA73)))[
    "r"
  ]

(*
  @type: ((Int, { t: Int, x: Int, y: Int, z: Int }) => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_mul3(m_toy_C_k_541, m_toy_C_p_541) ==
  m_toy_C_toy_W_byDigits(m_toy_C_p_541, (m_toy_C_windows(m_toy_C_k_541, (m_toy_C_L),
  3, (m_toy_C_N2))), 3)

(*
  @type: (() => { t: Int, x: Int, y: Int, z: Int });
*)
m_toy_C_TABLE == m_toy_C_shifted((m_toy_C_iso((m_toy_C_toy_E_G))))

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }, Int, Int) => Bool);
*)
m_toy_A_toy_E_equationHolds(m_toy_A_toy_E_aPt_2062, m_toy_A_toy_E_rPt_2062, m_toy_A_toy_E_s_2062,
m_toy_A_toy_E_k_2062) ==
  m_toy_A_toy_E_peq((m_toy_A_toy_E_p4((m_toy_A_toy_E_padd((m_toy_A_toy_E_padd((m_toy_A_toy_E_smulG(m_toy_A_toy_E_s_2062)),
  (m_toy_A_toy_E_pneg(m_toy_A_toy_E_rPt_2062)))), (m_toy_A_toy_E_pneg((m_toy_A_toy_E_smul(m_toy_A_toy_E_k_2062,
  m_toy_A_toy_E_aPt_2062)))))))), (m_toy_A_toy_E_ID))

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }, Int, Int) => Bool);
*)
m_toy_B_toy_E_equationHolds(m_toy_B_toy_E_aPt_2062, m_toy_B_toy_E_rPt_2062, m_toy_B_toy_E_s_2062,
m_toy_B_toy_E_k_2062) ==
  m_toy_B_toy_E_peq((m_toy_B_toy_E_p4((m_toy_B_toy_E_padd((m_toy_B_toy_E_padd((m_toy_B_toy_E_smulG(m_toy_B_toy_E_s_2062)),
  (m_toy_B_toy_E_pneg(m_toy_B_toy_E_rPt_2062)))), (m_toy_B_toy_E_pneg((m_toy_B_toy_E_smul(m_toy_B_toy_E_k_2062,
  m_toy_B_toy_E_aPt_2062)))))))), (m_toy_B_toy_E_ID))

(*
  @type: (({ x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }, Int, Int) => Bool);
*)
m_toy_C_toy_E_equationHolds(m_toy_C_toy_E_aPt_2062, m_toy_C_toy_E_rPt_2062, m_toy_C_toy_E_s_2062,
m_toy_C_toy_E_k_2062) ==
  m_toy_C_toy_E_peq((m_toy_C_toy_E_p4((m_toy_C_toy_E_padd((m_toy_C_toy_E_padd((m_toy_C_toy_E_smulG(m_toy_C_toy_E_s_2062)),
  (m_toy_C_toy_E_pneg(m_toy_C_toy_E_rPt_2062)))), (m_toy_C_toy_E_pneg((m_toy_C_toy_E_smul(m_toy_C_toy_E_k_2062,
  m_toy_C_toy_E_aPt_2062)))))))), (m_toy_C_toy_E_ID))

(*
  @type: ((Int) => Bool);
*)
m_toy_A_encodings(m_toy_A_e_645) ==
  LET (*
    @type: (() => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
  *)
  m_toy_A_d == m_toy_A_toy_E_decode(m_toy_A_e_645)
  IN
  LET (*
    @type: (() => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
  *)
  m_toy_A_w == m_toy_A_toy_W_decodeExt(m_toy_A_e_645)
  IN
  (m_toy_A_d)["ok"] = (m_toy_A_w)["ok"]
    /\ ((m_toy_A_d)["ok"]
      => (LET (*
        @type: (() => { t: Int, x: Int, y: Int, z: Int });
      *)
      m_toy_A_q == m_toy_A_mul((m_toy_A_FOURTH), (m_toy_A_w)["pt"])
      IN
      m_toy_A_toy_E_onCurve((m_toy_A_d)["pt"])
        /\ m_toy_A_toy_E_encode((m_toy_A_d)["pt"]) = m_toy_A_e_645
        /\ m_toy_A_toy_W_onTwist((m_toy_A_w)["pt"])
        /\ m_toy_A_toy_W_onTwist((m_toy_A_q))
        /\ m_toy_A_toy_W_encodeExt((m_toy_A_q))
          = m_toy_A_toy_E_encode((m_toy_A_toy_E_primePart((m_toy_A_d)["pt"])))))

(*
  @type: ((Int) => Bool);
*)
m_toy_B_encodings(m_toy_B_e_645) ==
  LET (*
    @type: (() => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
  *)
  m_toy_B_d == m_toy_B_toy_E_decode(m_toy_B_e_645)
  IN
  LET (*
    @type: (() => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
  *)
  m_toy_B_w == m_toy_B_toy_W_decodeExt(m_toy_B_e_645)
  IN
  (m_toy_B_d)["ok"] = (m_toy_B_w)["ok"]
    /\ ((m_toy_B_d)["ok"]
      => (LET (*
        @type: (() => { t: Int, x: Int, y: Int, z: Int });
      *)
      m_toy_B_q == m_toy_B_mul((m_toy_B_FOURTH), (m_toy_B_w)["pt"])
      IN
      m_toy_B_toy_E_onCurve((m_toy_B_d)["pt"])
        /\ m_toy_B_toy_E_encode((m_toy_B_d)["pt"]) = m_toy_B_e_645
        /\ m_toy_B_toy_W_onTwist((m_toy_B_w)["pt"])
        /\ m_toy_B_toy_W_onTwist((m_toy_B_q))
        /\ m_toy_B_toy_W_encodeExt((m_toy_B_q))
          = m_toy_B_toy_E_encode((m_toy_B_toy_E_primePart((m_toy_B_d)["pt"])))))

(*
  @type: ((Int) => Bool);
*)
m_toy_C_encodings(m_toy_C_e_645) ==
  LET (*
    @type: (() => { ok: Bool, pt: { x: Int, y: Int, z: Int } });
  *)
  m_toy_C_d == m_toy_C_toy_E_decode(m_toy_C_e_645)
  IN
  LET (*
    @type: (() => { ok: Bool, pt: { t: Int, x: Int, y: Int, z: Int } });
  *)
  m_toy_C_w == m_toy_C_toy_W_decodeExt(m_toy_C_e_645)
  IN
  (m_toy_C_d)["ok"] = (m_toy_C_w)["ok"]
    /\ ((m_toy_C_d)["ok"]
      => (LET (*
        @type: (() => { t: Int, x: Int, y: Int, z: Int });
      *)
      m_toy_C_q == m_toy_C_mul((m_toy_C_FOURTH), (m_toy_C_w)["pt"])
      IN
      m_toy_C_toy_E_onCurve((m_toy_C_d)["pt"])
        /\ m_toy_C_toy_E_encode((m_toy_C_d)["pt"]) = m_toy_C_e_645
        /\ m_toy_C_toy_W_onTwist((m_toy_C_w)["pt"])
        /\ m_toy_C_toy_W_onTwist((m_toy_C_q))
        /\ m_toy_C_toy_W_encodeExt((m_toy_C_q))
          = m_toy_C_toy_E_encode((m_toy_C_toy_E_primePart((m_toy_C_d)["pt"])))))

(*
  @type: ((Int, Int, Int) => Bool);
*)
m_toy_A_multiples(m_toy_A_a_762, m_toy_A_i_762, m_toy_A_k_762) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_p == m_toy_A_point(m_toy_A_a_762, m_toy_A_i_762)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_q == m_toy_A_iso((m_toy_A_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_r == m_toy_A_mul(m_toy_A_k_762, (m_toy_A_q))
  IN
  m_toy_A_toy_E_onCurve((m_toy_A_p))
    /\ (m_toy_A_toy_E_decode((m_toy_A_toy_E_encode((m_toy_A_p)))))["ok"]
    /\ m_toy_A_toy_E_peq((m_toy_A_toy_E_pdbl((m_toy_A_p))), (m_toy_A_toy_E_padd((m_toy_A_p),
    (m_toy_A_p))))
    /\ m_toy_A_toy_E_peq((m_toy_A_toy_E_smul((4 * m_toy_A_L), (m_toy_A_p))), (m_toy_A_toy_E_ID))
    /\ m_toy_A_toy_E_peq((m_toy_A_toy_E_smul(m_toy_A_k_762, (m_toy_A_toy_E_smulG(m_toy_A_a_762)))),
    (m_toy_A_toy_E_smulG((m_toy_A_k_762 * m_toy_A_a_762 % m_toy_A_L))))
    /\ m_toy_A_toy_W_onTwist((m_toy_A_q))
    /\ m_toy_A_toy_W_same((m_toy_A_toy_W_times((m_toy_A_L), (m_toy_A_q))), (m_toy_A_toy_W_NEUTRAL))
    /\ m_toy_A_toy_W_onTwist((m_toy_A_r))
    /\ m_toy_A_toy_W_same((m_toy_A_r), (m_toy_A_toy_W_times(m_toy_A_k_762, (m_toy_A_q))))
    /\ m_toy_A_toy_W_same((m_toy_A_r), (m_toy_A_mul3(m_toy_A_k_762, (m_toy_A_q))))
    /\ m_toy_A_toy_W_encodeExt((m_toy_A_r))
      = m_toy_A_toy_E_encode((m_toy_A_toy_E_smul((4 * m_toy_A_k_762), (m_toy_A_p))))
    /\ m_toy_A_toy_W_encodeExt((m_toy_A_mul(m_toy_A_k_762, (m_toy_A_mul((m_toy_A_FOURTH),
    (m_toy_A_q))))))
      = m_toy_A_toy_E_encode((m_toy_A_toy_E_smul(m_toy_A_k_762, (m_toy_A_toy_E_primePart((m_toy_A_p))))))
    /\ m_toy_A_toy_W_encodeExt((m_toy_A_mul((m_toy_A_k_762 * m_toy_A_FOURTH
      % m_toy_A_L), (m_toy_A_TABLE))))
      = m_toy_A_toy_E_encode((m_toy_A_toy_E_smulG(m_toy_A_k_762)))
    /\ m_toy_A_toy_W_encodeExt((m_toy_A_shifted((m_toy_A_r))))
      = m_toy_A_toy_W_encodeExt((m_toy_A_r))
    /\ m_toy_A_toy_W_onTwist((m_toy_A_mul(m_toy_A_k_762, (m_toy_A_TABLE))))

(*
  @type: ((Int, Int, Int) => Bool);
*)
m_toy_B_multiples(m_toy_B_a_762, m_toy_B_i_762, m_toy_B_k_762) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_p == m_toy_B_point(m_toy_B_a_762, m_toy_B_i_762)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_q == m_toy_B_iso((m_toy_B_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_r == m_toy_B_mul(m_toy_B_k_762, (m_toy_B_q))
  IN
  m_toy_B_toy_E_onCurve((m_toy_B_p))
    /\ (m_toy_B_toy_E_decode((m_toy_B_toy_E_encode((m_toy_B_p)))))["ok"]
    /\ m_toy_B_toy_E_peq((m_toy_B_toy_E_pdbl((m_toy_B_p))), (m_toy_B_toy_E_padd((m_toy_B_p),
    (m_toy_B_p))))
    /\ m_toy_B_toy_E_peq((m_toy_B_toy_E_smul((4 * m_toy_B_L), (m_toy_B_p))), (m_toy_B_toy_E_ID))
    /\ m_toy_B_toy_E_peq((m_toy_B_toy_E_smul(m_toy_B_k_762, (m_toy_B_toy_E_smulG(m_toy_B_a_762)))),
    (m_toy_B_toy_E_smulG((m_toy_B_k_762 * m_toy_B_a_762 % m_toy_B_L))))
    /\ m_toy_B_toy_W_onTwist((m_toy_B_q))
    /\ m_toy_B_toy_W_same((m_toy_B_toy_W_times((m_toy_B_L), (m_toy_B_q))), (m_toy_B_toy_W_NEUTRAL))
    /\ m_toy_B_toy_W_onTwist((m_toy_B_r))
    /\ m_toy_B_toy_W_same((m_toy_B_r), (m_toy_B_toy_W_times(m_toy_B_k_762, (m_toy_B_q))))
    /\ m_toy_B_toy_W_same((m_toy_B_r), (m_toy_B_mul3(m_toy_B_k_762, (m_toy_B_q))))
    /\ m_toy_B_toy_W_encodeExt((m_toy_B_r))
      = m_toy_B_toy_E_encode((m_toy_B_toy_E_smul((4 * m_toy_B_k_762), (m_toy_B_p))))
    /\ m_toy_B_toy_W_encodeExt((m_toy_B_mul(m_toy_B_k_762, (m_toy_B_mul((m_toy_B_FOURTH),
    (m_toy_B_q))))))
      = m_toy_B_toy_E_encode((m_toy_B_toy_E_smul(m_toy_B_k_762, (m_toy_B_toy_E_primePart((m_toy_B_p))))))
    /\ m_toy_B_toy_W_encodeExt((m_toy_B_mul((m_toy_B_k_762 * m_toy_B_FOURTH
      % m_toy_B_L), (m_toy_B_TABLE))))
      = m_toy_B_toy_E_encode((m_toy_B_toy_E_smulG(m_toy_B_k_762)))
    /\ m_toy_B_toy_W_encodeExt((m_toy_B_shifted((m_toy_B_r))))
      = m_toy_B_toy_W_encodeExt((m_toy_B_r))
    /\ m_toy_B_toy_W_onTwist((m_toy_B_mul(m_toy_B_k_762, (m_toy_B_TABLE))))

(*
  @type: ((Int, Int, Int) => Bool);
*)
m_toy_C_multiples(m_toy_C_a_762, m_toy_C_i_762, m_toy_C_k_762) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_p == m_toy_C_point(m_toy_C_a_762, m_toy_C_i_762)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_q == m_toy_C_iso((m_toy_C_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_r == m_toy_C_mul(m_toy_C_k_762, (m_toy_C_q))
  IN
  m_toy_C_toy_E_onCurve((m_toy_C_p))
    /\ (m_toy_C_toy_E_decode((m_toy_C_toy_E_encode((m_toy_C_p)))))["ok"]
    /\ m_toy_C_toy_E_peq((m_toy_C_toy_E_pdbl((m_toy_C_p))), (m_toy_C_toy_E_padd((m_toy_C_p),
    (m_toy_C_p))))
    /\ m_toy_C_toy_E_peq((m_toy_C_toy_E_smul((4 * m_toy_C_L), (m_toy_C_p))), (m_toy_C_toy_E_ID))
    /\ m_toy_C_toy_E_peq((m_toy_C_toy_E_smul(m_toy_C_k_762, (m_toy_C_toy_E_smulG(m_toy_C_a_762)))),
    (m_toy_C_toy_E_smulG((m_toy_C_k_762 * m_toy_C_a_762 % m_toy_C_L))))
    /\ m_toy_C_toy_W_onTwist((m_toy_C_q))
    /\ m_toy_C_toy_W_same((m_toy_C_toy_W_times((m_toy_C_L), (m_toy_C_q))), (m_toy_C_toy_W_NEUTRAL))
    /\ m_toy_C_toy_W_onTwist((m_toy_C_r))
    /\ m_toy_C_toy_W_same((m_toy_C_r), (m_toy_C_toy_W_times(m_toy_C_k_762, (m_toy_C_q))))
    /\ m_toy_C_toy_W_same((m_toy_C_r), (m_toy_C_mul3(m_toy_C_k_762, (m_toy_C_q))))
    /\ m_toy_C_toy_W_encodeExt((m_toy_C_r))
      = m_toy_C_toy_E_encode((m_toy_C_toy_E_smul((4 * m_toy_C_k_762), (m_toy_C_p))))
    /\ m_toy_C_toy_W_encodeExt((m_toy_C_mul(m_toy_C_k_762, (m_toy_C_mul((m_toy_C_FOURTH),
    (m_toy_C_q))))))
      = m_toy_C_toy_E_encode((m_toy_C_toy_E_smul(m_toy_C_k_762, (m_toy_C_toy_E_primePart((m_toy_C_p))))))
    /\ m_toy_C_toy_W_encodeExt((m_toy_C_mul((m_toy_C_k_762 * m_toy_C_FOURTH
      % m_toy_C_L), (m_toy_C_TABLE))))
      = m_toy_C_toy_E_encode((m_toy_C_toy_E_smulG(m_toy_C_k_762)))
    /\ m_toy_C_toy_W_encodeExt((m_toy_C_shifted((m_toy_C_r))))
      = m_toy_C_toy_W_encodeExt((m_toy_C_r))
    /\ m_toy_C_toy_W_onTwist((m_toy_C_mul(m_toy_C_k_762, (m_toy_C_TABLE))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
m_toy_A_pairs(m_toy_A_a_877, m_toy_A_i_877, m_toy_A_b_877, m_toy_A_j_877) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_p == m_toy_A_point(m_toy_A_a_877, m_toy_A_i_877)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_q == m_toy_A_point(m_toy_A_b_877, m_toy_A_j_877)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_u == m_toy_A_iso((m_toy_A_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_v == m_toy_A_iso((m_toy_A_q))
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_s == m_toy_A_toy_E_padd((m_toy_A_p), (m_toy_A_q))
  IN
  m_toy_A_toy_E_onCurve((m_toy_A_s))
    /\ m_toy_A_toy_E_peq((m_toy_A_s), (m_toy_A_toy_E_padd((m_toy_A_q), (m_toy_A_p))))
    /\ m_toy_A_toy_E_peq((m_toy_A_toy_E_padd((m_toy_A_s), (m_toy_A_toy_E_pneg((m_toy_A_q))))),
    (m_toy_A_p))
    /\ m_toy_A_toy_E_peq((m_toy_A_p), (m_toy_A_q))
      = (m_toy_A_a_877 = m_toy_A_b_877 /\ m_toy_A_i_877 = m_toy_A_j_877)
    /\ (m_toy_A_toy_E_encode((m_toy_A_p)) = m_toy_A_toy_E_encode((m_toy_A_q)))
      = m_toy_A_toy_E_peq((m_toy_A_p), (m_toy_A_q))
    /\ m_toy_A_toy_W_onTwist((m_toy_A_toy_W_plus((m_toy_A_u), (m_toy_A_v))))
    /\ m_toy_A_toy_W_same((m_toy_A_toy_W_plus((m_toy_A_u), (m_toy_A_v))), (m_toy_A_iso((m_toy_A_toy_E_normal((m_toy_A_s))))))
    /\ m_toy_A_toy_W_same((m_toy_A_u), (m_toy_A_v))
      = (m_toy_A_a_877 = m_toy_A_b_877)
    /\ m_toy_A_toy_W_sameRatio((m_toy_A_u), (m_toy_A_v))
      = (m_toy_A_a_877 = m_toy_A_b_877)
    /\ m_toy_A_toy_W_sameRatio((m_toy_A_shifted((m_toy_A_u))), (m_toy_A_v))
      = (m_toy_A_a_877 = m_toy_A_b_877)
    /\ m_toy_A_toy_W_onTwist((m_toy_A_toy_W_plus((m_toy_A_shifted((m_toy_A_u))),
    (m_toy_A_v))))
    /\ m_toy_A_toy_W_same((m_toy_A_toy_W_plus((m_toy_A_shifted((m_toy_A_u))), (m_toy_A_v))),
    (m_toy_A_shifted((m_toy_A_iso((m_toy_A_toy_E_normal((m_toy_A_s))))))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
m_toy_B_pairs(m_toy_B_a_877, m_toy_B_i_877, m_toy_B_b_877, m_toy_B_j_877) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_p == m_toy_B_point(m_toy_B_a_877, m_toy_B_i_877)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_q == m_toy_B_point(m_toy_B_b_877, m_toy_B_j_877)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_u == m_toy_B_iso((m_toy_B_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_v == m_toy_B_iso((m_toy_B_q))
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_s == m_toy_B_toy_E_padd((m_toy_B_p), (m_toy_B_q))
  IN
  m_toy_B_toy_E_onCurve((m_toy_B_s))
    /\ m_toy_B_toy_E_peq((m_toy_B_s), (m_toy_B_toy_E_padd((m_toy_B_q), (m_toy_B_p))))
    /\ m_toy_B_toy_E_peq((m_toy_B_toy_E_padd((m_toy_B_s), (m_toy_B_toy_E_pneg((m_toy_B_q))))),
    (m_toy_B_p))
    /\ m_toy_B_toy_E_peq((m_toy_B_p), (m_toy_B_q))
      = (m_toy_B_a_877 = m_toy_B_b_877 /\ m_toy_B_i_877 = m_toy_B_j_877)
    /\ (m_toy_B_toy_E_encode((m_toy_B_p)) = m_toy_B_toy_E_encode((m_toy_B_q)))
      = m_toy_B_toy_E_peq((m_toy_B_p), (m_toy_B_q))
    /\ m_toy_B_toy_W_onTwist((m_toy_B_toy_W_plus((m_toy_B_u), (m_toy_B_v))))
    /\ m_toy_B_toy_W_same((m_toy_B_toy_W_plus((m_toy_B_u), (m_toy_B_v))), (m_toy_B_iso((m_toy_B_toy_E_normal((m_toy_B_s))))))
    /\ m_toy_B_toy_W_same((m_toy_B_u), (m_toy_B_v))
      = (m_toy_B_a_877 = m_toy_B_b_877)
    /\ m_toy_B_toy_W_sameRatio((m_toy_B_u), (m_toy_B_v))
      = (m_toy_B_a_877 = m_toy_B_b_877)
    /\ m_toy_B_toy_W_sameRatio((m_toy_B_shifted((m_toy_B_u))), (m_toy_B_v))
      = (m_toy_B_a_877 = m_toy_B_b_877)
    /\ m_toy_B_toy_W_onTwist((m_toy_B_toy_W_plus((m_toy_B_shifted((m_toy_B_u))),
    (m_toy_B_v))))
    /\ m_toy_B_toy_W_same((m_toy_B_toy_W_plus((m_toy_B_shifted((m_toy_B_u))), (m_toy_B_v))),
    (m_toy_B_shifted((m_toy_B_iso((m_toy_B_toy_E_normal((m_toy_B_s))))))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
m_toy_C_pairs(m_toy_C_a_877, m_toy_C_i_877, m_toy_C_b_877, m_toy_C_j_877) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_p == m_toy_C_point(m_toy_C_a_877, m_toy_C_i_877)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_q == m_toy_C_point(m_toy_C_b_877, m_toy_C_j_877)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_u == m_toy_C_iso((m_toy_C_p))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_v == m_toy_C_iso((m_toy_C_q))
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_s == m_toy_C_toy_E_padd((m_toy_C_p), (m_toy_C_q))
  IN
  m_toy_C_toy_E_onCurve((m_toy_C_s))
    /\ m_toy_C_toy_E_peq((m_toy_C_s), (m_toy_C_toy_E_padd((m_toy_C_q), (m_toy_C_p))))
    /\ m_toy_C_toy_E_peq((m_toy_C_toy_E_padd((m_toy_C_s), (m_toy_C_toy_E_pneg((m_toy_C_q))))),
    (m_toy_C_p))
    /\ m_toy_C_toy_E_peq((m_toy_C_p), (m_toy_C_q))
      = (m_toy_C_a_877 = m_toy_C_b_877 /\ m_toy_C_i_877 = m_toy_C_j_877)
    /\ (m_toy_C_toy_E_encode((m_toy_C_p)) = m_toy_C_toy_E_encode((m_toy_C_q)))
      = m_toy_C_toy_E_peq((m_toy_C_p), (m_toy_C_q))
    /\ m_toy_C_toy_W_onTwist((m_toy_C_toy_W_plus((m_toy_C_u), (m_toy_C_v))))
    /\ m_toy_C_toy_W_same((m_toy_C_toy_W_plus((m_toy_C_u), (m_toy_C_v))), (m_toy_C_iso((m_toy_C_toy_E_normal((m_toy_C_s))))))
    /\ m_toy_C_toy_W_same((m_toy_C_u), (m_toy_C_v))
      = (m_toy_C_a_877 = m_toy_C_b_877)
    /\ m_toy_C_toy_W_sameRatio((m_toy_C_u), (m_toy_C_v))
      = (m_toy_C_a_877 = m_toy_C_b_877)
    /\ m_toy_C_toy_W_sameRatio((m_toy_C_shifted((m_toy_C_u))), (m_toy_C_v))
      = (m_toy_C_a_877 = m_toy_C_b_877)
    /\ m_toy_C_toy_W_onTwist((m_toy_C_toy_W_plus((m_toy_C_shifted((m_toy_C_u))),
    (m_toy_C_v))))
    /\ m_toy_C_toy_W_same((m_toy_C_toy_W_plus((m_toy_C_shifted((m_toy_C_u))), (m_toy_C_v))),
    (m_toy_C_shifted((m_toy_C_iso((m_toy_C_toy_E_normal((m_toy_C_s))))))))

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Bool);
*)
m_toy_A_verdicts(m_toy_A_a_962, m_toy_A_i_962, m_toy_A_r_962, m_toy_A_j_962, m_toy_A_s_962,
m_toy_A_k_962) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_pa == m_toy_A_point(m_toy_A_a_962, m_toy_A_i_962)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_A_pr == m_toy_A_point(m_toy_A_r_962, m_toy_A_j_962)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_a4 ==
    m_toy_A_mul((4 % m_toy_A_L), (m_toy_A_mul((m_toy_A_FOURTH), (m_toy_A_iso((m_toy_A_pa))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_r4 ==
    m_toy_A_mul((4 % m_toy_A_L), (m_toy_A_mul((m_toy_A_FOURTH), (m_toy_A_iso((m_toy_A_pr))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_A_lhs ==
    m_toy_A_toy_W_plus((m_toy_A_mul(m_toy_A_s_962, (m_toy_A_TABLE))), (m_toy_A_mul(((m_toy_A_L
      - m_toy_A_k_962)
      % m_toy_A_L), (m_toy_A_a4))))
  IN
  LET (*
    @type: (() => Bool);
  *)
  m_toy_A_want ==
    m_toy_A_s_962 = (m_toy_A_r_962 + m_toy_A_k_962 * m_toy_A_a_962) % m_toy_A_L
  IN
  (m_toy_A_toy_E_equationHolds((m_toy_A_pa), (m_toy_A_pr), m_toy_A_s_962, m_toy_A_k_962)
        = m_toy_A_want
      /\ m_toy_A_toy_W_sameRatio((m_toy_A_r4), (m_toy_A_lhs)) = m_toy_A_want)
    /\ m_toy_A_toy_W_onTwist((m_toy_A_lhs))

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Bool);
*)
m_toy_B_verdicts(m_toy_B_a_962, m_toy_B_i_962, m_toy_B_r_962, m_toy_B_j_962, m_toy_B_s_962,
m_toy_B_k_962) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_pa == m_toy_B_point(m_toy_B_a_962, m_toy_B_i_962)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_B_pr == m_toy_B_point(m_toy_B_r_962, m_toy_B_j_962)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_a4 ==
    m_toy_B_mul((4 % m_toy_B_L), (m_toy_B_mul((m_toy_B_FOURTH), (m_toy_B_iso((m_toy_B_pa))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_r4 ==
    m_toy_B_mul((4 % m_toy_B_L), (m_toy_B_mul((m_toy_B_FOURTH), (m_toy_B_iso((m_toy_B_pr))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_B_lhs ==
    m_toy_B_toy_W_plus((m_toy_B_mul(m_toy_B_s_962, (m_toy_B_TABLE))), (m_toy_B_mul(((m_toy_B_L
      - m_toy_B_k_962)
      % m_toy_B_L), (m_toy_B_a4))))
  IN
  LET (*
    @type: (() => Bool);
  *)
  m_toy_B_want ==
    m_toy_B_s_962 = (m_toy_B_r_962 + m_toy_B_k_962 * m_toy_B_a_962) % m_toy_B_L
  IN
  (m_toy_B_toy_E_equationHolds((m_toy_B_pa), (m_toy_B_pr), m_toy_B_s_962, m_toy_B_k_962)
        = m_toy_B_want
      /\ m_toy_B_toy_W_sameRatio((m_toy_B_r4), (m_toy_B_lhs)) = m_toy_B_want)
    /\ m_toy_B_toy_W_onTwist((m_toy_B_lhs))

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Bool);
*)
m_toy_C_verdicts(m_toy_C_a_962, m_toy_C_i_962, m_toy_C_r_962, m_toy_C_j_962, m_toy_C_s_962,
m_toy_C_k_962) ==
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_pa == m_toy_C_point(m_toy_C_a_962, m_toy_C_i_962)
  IN
  LET (*
    @type: (() => { x: Int, y: Int, z: Int });
  *)
  m_toy_C_pr == m_toy_C_point(m_toy_C_r_962, m_toy_C_j_962)
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_a4 ==
    m_toy_C_mul((4 % m_toy_C_L), (m_toy_C_mul((m_toy_C_FOURTH), (m_toy_C_iso((m_toy_C_pa))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_r4 ==
    m_toy_C_mul((4 % m_toy_C_L), (m_toy_C_mul((m_toy_C_FOURTH), (m_toy_C_iso((m_toy_C_pr))))))
  IN
  LET (*
    @type: (() => { t: Int, x: Int, y: Int, z: Int });
  *)
  m_toy_C_lhs ==
    m_toy_C_toy_W_plus((m_toy_C_mul(m_toy_C_s_962, (m_toy_C_TABLE))), (m_toy_C_mul(((m_toy_C_L
      - m_toy_C_k_962)
      % m_toy_C_L), (m_toy_C_a4))))
  IN
  LET (*
    @type: (() => Bool);
  *)
  m_toy_C_want ==
    m_toy_C_s_962 = (m_toy_C_r_962 + m_toy_C_k_962 * m_toy_C_a_962) % m_toy_C_L
  IN
  (m_toy_C_toy_E_equationHolds((m_toy_C_pa), (m_toy_C_pr), m_toy_C_s_962, m_toy_C_k_962)
        = m_toy_C_want
      /\ m_toy_C_toy_W_sameRatio((m_toy_C_r4), (m_toy_C_lhs)) = m_toy_C_want)
    /\ m_toy_C_toy_W_onTwist((m_toy_C_lhs))

(*
  @type: (() => Bool);
*)
stepEncodings ==
  \E c \in 0 .. 2:
    \E e \in 0 .. 2 ^ (IF c = 0 THEN 6 ELSE IF c = 1 THEN 8 ELSE 9) - 1:
      holds'
        := (IF c = 0
        THEN m_toy_A_encodings(e)
        ELSE IF c = 1 THEN m_toy_B_encodings(e) ELSE m_toy_C_encodings(e))

(*
  @type: (() => Bool);
*)
stepMultiples ==
  \E c \in 0 .. 2:
    \E a \in 0 .. (ORDER)[(c + 1)] - 1:
      \E i \in 0 .. 3:
        \E k \in 0 .. (ORDER)[(c + 1)] - 1:
          holds'
            := (IF c = 0
            THEN m_toy_A_multiples(a, i, k)
            ELSE IF c = 1
            THEN m_toy_B_multiples(a, i, k)
            ELSE m_toy_C_multiples(a, i, k))

(*
  @type: (() => Bool);
*)
stepPairs ==
  \E c \in 0 .. 2:
    \E a \in 0 .. (ORDER)[(c + 1)] - 1:
      \E i \in 0 .. 3:
        \E b \in 0 .. (ORDER)[(c + 1)] - 1:
          \E j \in 0 .. 3:
            holds'
              := (IF c = 0
              THEN m_toy_A_pairs(a, i, b, j)
              ELSE IF c = 1
              THEN m_toy_B_pairs(a, i, b, j)
              ELSE m_toy_C_pairs(a, i, b, j))

(*
  @type: ((Int) => Bool);
*)
verdictsOn(c_307) ==
  \E a \in 0 .. (ORDER)[(c_307 + 1)] - 1:
    \E i \in 0 .. 3:
      \E r \in 0 .. (ORDER)[(c_307 + 1)] - 1:
        \E j \in 0 .. 3:
          \E s \in 0 .. (ORDER)[(c_307 + 1)] - 1:
            \E k \in 0 .. (ORDER)[(c_307 + 1)] - 1:
              holds'
                := (IF c_307 = 0
                THEN m_toy_A_verdicts(a, i, r, j, s, k)
                ELSE IF c_307 = 1
                THEN m_toy_B_verdicts(a, i, r, j, s, k)
                ELSE m_toy_C_verdicts(a, i, r, j, s, k))

(*
  @type: (() => Bool);
*)
stepVerdicts3 == verdictsOn(0)

(*
  @type: (() => Bool);
*)
stepVerdicts7 == verdictsOn(1)

(*
  @type: (() => Bool);
*)
stepVerdicts13 == verdictsOn(2)

(*
  @type: (() => Bool);
*)
step ==
  stepEncodings
    \/ stepMultiples
    \/ stepPairs
    \/ stepVerdicts3
    \/ stepVerdicts7
    \/ stepVerdicts13
    \/ stepRecodings

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
