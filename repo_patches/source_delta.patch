From 49da3fdad4939662080da59954207155da814585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 01/58] fix: keep the erased-clause list intact when a
 predicate is already being erased

Backtracking into retract/1 after all the clauses were removed
(retractall/1 with an open head, abolish/1) linked a clause to the
ALL_MUST_BE_ERASED mark, which the clause garbage collector then
dereferenced.
---
 src/BipsPl/dynam_supp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d5412f1..fef2657 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -709,6 +709,15 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
   MPROBE_PTR("dyn", dyn);
 
+  /*
+   * Test if all clauses are already deleted, see Erase_All(). This can occur
+   * with LDUV when backtracking in the retract/1 after a retractall/1:
+   *
+   * | ?- retract(foo(X)), retractall(foo(_)), fail.
+   */
+  if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
+    return;
+
 #if DEBUG_LEVEL >= 1
   Print_Dynamic_Clause("Delete clause", clause);
 #endif
-- 
2.43.0


From 0e2821b4ae6a4397a46d9aaeeac4043a9194fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 02/58] fix: setof/3 without free variables must not sort its
 argument in place

The solutions were unified with the result argument before being sorted:
setof(X, member(X,[2,1]), [1,2]) failed, and [2,1] was accepted and
destructively reordered.
---
 src/BipsPl/all_solut.pl  |  9 +++++----
 src/BipsPl/all_solut.wam | 25 ++++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..1c586a5 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -90,12 +90,13 @@ bagof(Template, Generator, Instances) :-
 
 '$bagof'(Template, _, Instances, BipFunc, BipArity) :-
 	'$call_c'('Pl_Recover_Generator_1'(Generator)),
-	'$findall'(Template, Generator, Instances, [], BipFunc, BipArity),
-	Instances \== [],
+	'$findall'(Template, Generator, AllInstances, [], BipFunc, BipArity),
+	AllInstances \== [],
 	(   BipFunc = bagof ->
 	    true
-	;   sort(Instances)
-	).
+	;   sort(AllInstances)
+	),
+	Instances = AllInstances.
 
 
 
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index a68d0ed..af9ea68 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 7d0ee7eaf19ee8e6ecfa0b993f204ab7e8376ae8  all_solut.pl
+% hash: acc0dd9e5204cb1ec06dbb29042c43cf1c51ba48  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -130,23 +130,26 @@ predicate('$bagof'/5,80,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    allocate(2),
+    allocate(3),
     get_variable(y(0),2),
     get_variable(y(1),3),
     put_variable(x(1),2),
     call_c('Pl_Recover_Generator_1',[],[x(2)]),
     put_value(x(4),5),
-    put_value(y(0),2),
+    put_variable(y(2),2),
     put_nil(3),
     put_value(y(1),4),
     call('$findall'/6),
-    put_value(y(0),0),
+    put_value(y(2),0),
     put_nil(1),
     call_c('Pl_Blt_Term_Neq',[fast_call,boolean],[x(0),x(1)]),
     put_value(y(1),0),
-    put_value(y(0),1),
+    put_value(y(2),1),
+    call('$$bagof/5_$aux2'/2),
+    put_value(y(0),0),
+    get_value(y(2),0),
     deallocate,
-    execute('$$bagof/5_$aux2'/2)]).
+    proceed]).
 
 
 predicate('$$bagof/5_$aux2'/2,91,static,private,monofile,local,[
@@ -178,7 +181,7 @@ label(1),
     execute(sort/1)]).
 
 
-predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
+predicate('$store_solutions'/5,104,static,private,monofile,built_in,[
     get_variable(x(5),3),
     get_variable(x(3),0),
     call_c('Pl_Stop_Mark_1',[],[x(2)]),
@@ -188,7 +191,7 @@ predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
     execute('$$store_solutions/5_$aux1'/4)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/4,104,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -203,17 +206,17 @@ label(1),
     proceed]).
 
 
-predicate('$group_solutions'/3,114,static,private,monofile,built_in,[
+predicate('$group_solutions'/3,115,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate('$group_solutions_alt'/0,117,static,private,monofile,built_in,[
+predicate('$group_solutions_alt'/0,118,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate('$check_list_arg'/3,125,static,private,monofile,built_in,[
+predicate('$check_list_arg'/3,126,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_2',[],[x(1),x(2)]),
     execute('$check_list_or_partial_list'/1)]).
 
-- 
2.43.0


From 1e19cfb2bd878e225b73c0412ffcb0ed8d0073ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 03/58] fix: index integer first arguments on their full value

pl2wam's switch_on_integer was translated with the keys truncated to a C int,
and ma2asm sorted the cases by a difference truncated to int: in native code a
clause whose first argument needs more than 32 bits was not found.
---
 src/Ma2Asm/ma2asm.c | 2 +-
 src/Wam2Ma/wam2ma.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ma2Asm/ma2asm.c b/src/Ma2Asm/ma2asm.c
index d521b0d..8f3ad07 100644
--- a/src/Ma2Asm/ma2asm.c
+++ b/src/Ma2Asm/ma2asm.c
@@ -727,7 +727,7 @@ Switch_Equal(SwtInf *c)
 int
 Switch_Cmp_Int(SwtInf *c1, SwtInf *c2)
 {
-  return (int) (c1->int_val - c2->int_val);
+  return (c1->int_val > c2->int_val) - (c1->int_val < c2->int_val);
 }
 
 
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 25adc5c..1e6a8c3 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -1432,7 +1432,7 @@ F_switch_on_integer(ArgVal arg[])
   c = '(';
   for(i = 0; i < nb_elem; i++)
     {
-      LOAD_C_INT(n);
+      LOAD_INTEGER(n);
       LOAD_LABEL(l);
       if (i % 5 == 0 && i > 0)
 	{
-- 
2.43.0


From fb8c7e796e776a7bde0af5494e37484fe4f7ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 04/58] fix: a cut in a native clause of a dynamic or multifile
 predicate cuts the predicate

Such a clause is compiled to an auxiliary predicate which saved its own entry
as the cut level, so that a cut left the other clauses as alternatives. The
emulator already passes the cut level of the predicate in the register that
follows the arguments: use it.
---
 src/Pl2Wam/indexing.pl   |   7 +-
 src/Pl2Wam/indexing.wam  | 116 ++++++++++++--------
 src/Pl2Wam/read_file.pl  |   2 +
 src/Pl2Wam/read_file.wam | 228 ++++++++++++++++++++-------------------
 4 files changed, 202 insertions(+), 151 deletions(-)

diff --git a/src/Pl2Wam/indexing.pl b/src/Pl2Wam/indexing.pl
index d2b3361..1bdbed6 100644
--- a/src/Pl2Wam/indexing.pl
+++ b/src/Pl2Wam/indexing.pl
@@ -136,7 +136,12 @@ indexing(LCC, WamCode1) :-
 	cur_pred(Pred, N),
 	(   test_pred_flag(need_cut_level, Pred, N) ->
 	    N1 is N + 1,
-	    WamCode1 = [pragma_arity(N1), get_current_choice(x(N))|WamCode]
+	    (   test_pred_flag(wrapper, Pred, N) ->
+		% x(N) already contains the cut level of the dynamic predicate
+		% (see Pl_BC_Emulate_Pred in bc_supp.c)
+		WamCode1 = [pragma_arity(N1)|WamCode]
+	    ;   WamCode1 = [pragma_arity(N1), get_current_choice(x(N))|WamCode]
+	    )
 	;   WamCode1 = WamCode
 	),
 	allocate_labels(WamCode1, 1, _).
diff --git a/src/Pl2Wam/indexing.wam b/src/Pl2Wam/indexing.wam
index 1a95efb..1fcc590 100644
--- a/src/Pl2Wam/indexing.wam
+++ b/src/Pl2Wam/indexing.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: indexing.pl
-% hash: 20ef30a8be46375e38578b58b0728e2ae84c3183  indexing.pl
+% hash: 3b77527ea739e36bb613280c0630763509e1cda7  indexing.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/indexing.pl').
@@ -34,39 +34,71 @@ predicate('$indexing/2_$aux1'/4,134,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
+    allocate(5),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    get_variable(y(2),2),
+    get_variable(y(3),3),
+    get_variable(y(4),4),
+    put_atom(need_cut_level,0),
+    put_value(y(0),1),
+    put_value(y(1),2),
+    call(test_pred_flag/3),
+    cut(y(4)),
+    math_fast_load_value(y(1),0),
+    call_c('Pl_Fct_Fast_Inc',[fast_call,x(3)],[x(0)]),
+    put_value(y(0),0),
+    put_value(y(1),1),
+    put_value(y(2),2),
+    put_value(y(3),4),
+    deallocate,
+    execute('$indexing/2_$aux2'/5),
+
+label(1),
+    trust_me_else_fail,
+    get_value(x(3),2),
+    proceed]).
+
+
+predicate('$indexing/2_$aux2'/5,134,static,private,monofile,local,[
+    pragma_arity(6),
+    get_current_choice(x(5)),
+    try_me_else(1),
     allocate(4),
-    get_variable(y(0),1),
-    get_variable(y(1),2),
-    get_variable(y(2),3),
-    get_variable(y(3),4),
+    get_variable(y(0),2),
+    get_variable(y(1),3),
+    get_variable(y(2),4),
+    get_variable(x(2),1),
+    get_variable(y(3),5),
     put_value(x(0),1),
-    put_atom(need_cut_level,0),
-    put_value(y(0),2),
+    put_atom(wrapper,0),
     call(test_pred_flag/3),
     cut(y(3)),
-    math_fast_load_value(y(0),0),
-    call_c('Pl_Fct_Fast_Inc',[fast_call,x(1)],[x(0)]),
-    put_value(y(1),0),
+    put_value(y(0),0),
     get_list(0),
-    unify_variable(x(2)),
-    unify_list,
     unify_variable(x(0)),
     unify_local_value(y(2)),
-    get_structure(pragma_arity/1,2),
-    unify_local_value(x(1)),
-    get_structure(get_current_choice/1,0),
-    unify_structure(x/1),
-    unify_local_value(y(0)),
+    get_structure(pragma_arity/1,0),
+    unify_local_value(y(1)),
     deallocate,
     proceed,
 
 label(1),
     trust_me_else_fail,
-    get_value(x(3),2),
+    get_list(2),
+    unify_variable(x(2)),
+    unify_list,
+    unify_variable(x(0)),
+    unify_local_value(x(4)),
+    get_structure(pragma_arity/1,2),
+    unify_local_value(x(3)),
+    get_structure(get_current_choice/1,0),
+    unify_structure(x/1),
+    unify_local_value(x(1)),
     proceed]).
 
 
-predicate(indexing1/4,147,static,private,monofile,global,[
+predicate(indexing1/4,152,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -119,7 +151,7 @@ label(1),
     proceed]).
 
 
-predicate(look_for_var/5,161,static,private,monofile,global,[
+predicate(look_for_var/5,166,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     switch_on_term(2,3,fail,1,fail),
@@ -178,7 +210,7 @@ label(7),
     execute('$look_for_var/5_$aux2'/2)]).
 
 
-predicate('$look_for_var/5_$aux2'/2,170,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux2'/2,175,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(6),
@@ -211,7 +243,7 @@ label(6),
     proceed]).
 
 
-predicate('$look_for_var/5_$aux1'/2,163,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux1'/2,168,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -226,7 +258,7 @@ label(1),
     proceed]).
 
 
-predicate(mk_indexing/6,182,static,private,monofile,global,[
+predicate(mk_indexing/6,187,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(2,fail,1,fail,fail),
@@ -419,7 +451,7 @@ label(11),
     execute(gen_insts/3)]).
 
 
-predicate('$mk_indexing/6_$aux6'/8,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux6'/8,218,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -447,7 +479,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux5'/3,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux5'/3,218,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -464,7 +496,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux4'/3,207,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux4'/3,212,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -481,7 +513,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux3'/3,199,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux3'/3,204,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -498,7 +530,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux2'/3,191,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux2'/3,196,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -515,7 +547,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux1'/3,182,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux1'/3,187,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -532,7 +564,7 @@ label(1),
     proceed]).
 
 
-predicate(split/5,234,static,private,monofile,global,[
+predicate(split/5,239,static,private,monofile,global,[
     allocate(6),
     get_variable(y(0),1),
     get_variable(y(1),2),
@@ -553,7 +585,7 @@ predicate(split/5,234,static,private,monofile,global,[
     execute(group_by_keys/2)]).
 
 
-predicate(split1/5,241,static,private,monofile,global,[
+predicate(split1/5,246,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -597,7 +629,7 @@ label(4),
     execute(split1/5)]).
 
 
-predicate(split2/10,248,static,private,monofile,global,[
+predicate(split2/10,253,static,private,monofile,global,[
     switch_on_term(2,7,fail,fail,1),
 
 label(1),
@@ -672,7 +704,7 @@ label(9),
     proceed]).
 
 
-predicate(group_by_keys/2,268,static,private,monofile,global,[
+predicate(group_by_keys/2,273,static,private,monofile,global,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -686,7 +718,7 @@ predicate(group_by_keys/2,268,static,private,monofile,global,[
     execute(sort/1)]).
 
 
-predicate(group_by_keys1/2,278,static,private,monofile,global,[
+predicate(group_by_keys1/2,283,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -726,7 +758,7 @@ label(4),
     execute(group_by_keys1/2)]).
 
 
-predicate(group_by_keys2/4,285,static,private,monofile,global,[
+predicate(group_by_keys2/4,290,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -749,7 +781,7 @@ label(1),
     proceed]).
 
 
-predicate(gen_switch/5,294,static,private,monofile,global,[
+predicate(gen_switch/5,299,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(5),
@@ -808,7 +840,7 @@ label(5),
     proceed]).
 
 
-predicate(create_switch_list/4,317,static,private,monofile,global,[
+predicate(create_switch_list/4,322,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -848,7 +880,7 @@ label(4),
     execute(create_switch_list/4)]).
 
 
-predicate(gen_list/4,327,static,private,monofile,global,[
+predicate(gen_list/4,332,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     switch_on_term(2,3,fail,1,fail),
@@ -898,7 +930,7 @@ label(7),
     execute(gen_list1/3)]).
 
 
-predicate(gen_list1/3,337,static,private,monofile,global,[
+predicate(gen_list1/3,342,static,private,monofile,global,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -934,7 +966,7 @@ label(5),
     execute(gen_list1/3)]).
 
 
-predicate(gen_insts/3,346,static,private,monofile,global,[
+predicate(gen_insts/3,351,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -999,7 +1031,7 @@ label(5),
     proceed]).
 
 
-predicate(gen_insts1/3,355,static,private,monofile,global,[
+predicate(gen_insts1/3,360,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -1070,7 +1102,7 @@ label(5),
     proceed]).
 
 
-predicate(allocate_labels/3,365,static,private,monofile,global,[
+predicate(allocate_labels/3,370,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(7),
diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index d7bcc84..8ca1285 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -407,6 +407,7 @@ create_exe_clauses_for_dyn_pred([SrcCl|LSrcCl], Pred, N) :-
 
 add_wrapper_to_dyn_clause(Pred, N, Where + Cl, AuxName) :-
 	init_aux_pred_name(Pred, N, AuxName, N),
+	set_pred_flag(wrapper, AuxName, N),
 	(   Cl = (Head :- Body) ->
 	    head_wrapper(Head, AuxName, Head1),
 	    Cl1 = (Head1 :- Body)
@@ -1230,6 +1231,7 @@ flag_bit(need_cut_level, 6).
 flag_bit(meta, 7).
 flag_bit(multi, 8).
 flag_bit(embed, 9).
+flag_bit(wrapper, 10).
 
 
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index 783a493..e00d51d 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 2ec7b4fbceb099e4cc718d8f4a0593a0904639e8  read_file.pl
+% hash: 97cfa0f50b59704ed04f6cad7c7280503358f674  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -925,6 +925,10 @@ predicate(add_wrapper_to_dyn_clause/4,408,static,private,monofile,global,[
     put_value(y(3),2),
     put_value(y(0),3),
     call(init_aux_pred_name/4),
+    put_atom(wrapper,0),
+    put_value(y(3),1),
+    put_value(y(0),2),
+    call(set_pred_flag/3),
     put_value(y(2),0),
     put_value(y(3),1),
     put_variable(y(4),2),
@@ -966,7 +970,7 @@ label(1),
     execute(head_wrapper/3)]).
 
 
-predicate(head_wrapper/3,418,static,private,monofile,global,[
+predicate(head_wrapper/3,419,static,private,monofile,global,[
     put_list(4),
     unify_void(1),
     unify_variable(x(3)),
@@ -978,7 +982,7 @@ predicate(head_wrapper/3,418,static,private,monofile,global,[
     proceed]).
 
 
-predicate(create_exe_clauses_for_pub_pred/1,424,static,private,monofile,global,[
+predicate(create_exe_clauses_for_pub_pred/1,425,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1013,7 +1017,7 @@ label(4),
     execute(create_exe_clauses_for_pub_pred/1)]).
 
 
-predicate(get_file_name/2,434,static,private,monofile,global,[
+predicate(get_file_name/2,435,static,private,monofile,global,[
     get_structure((+)/2,0),
     unify_variable(x(0)),
     unify_void(1),
@@ -1026,7 +1030,7 @@ predicate(get_file_name/2,434,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_next_clause/3,439,static,private,monofile,global,[
+predicate(get_next_clause/3,440,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1123,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,451,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1189,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,451,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1206,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,470,static,private,monofile,global,[
+predicate(get_next_clause1/7,471,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1227,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,471,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1260,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,471,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1283,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,490,static,private,monofile,global,[
+predicate(get_next_clause2/6,491,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1391,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,517,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,518,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1407,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,508,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1420,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,508,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1435,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,490,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,491,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1459,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,538,static,private,monofile,global,[
+predicate(after_syn_error/0,539,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1493,7 +1497,7 @@ predicate(after_syn_error/0,538,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,550,static,private,monofile,global,[
+predicate(expand_error/3,551,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1532,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,562,static,private,monofile,global,[
+predicate(display_singletons/1,563,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1552,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,562,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,563,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1569,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,575,static,private,monofile,global,[
+predicate(get_singletons/2,576,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1599,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,577,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,578,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1626,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,599,static,private,monofile,global,[
+predicate(pp_handle_term/1,600,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1658,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,610,static,private,monofile,global,[
+predicate(pp_handle_directive/1,611,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1704,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,639,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,640,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1725,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,628,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1761,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,628,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1792,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,618,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1816,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,618,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1840,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,610,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,611,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1872,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,648,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,649,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,648,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,649,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1926,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,658,static,private,monofile,global,[
+predicate(pp_start/0,659,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,664,static,private,monofile,global,[
+predicate(pp_stop/0,665,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1950,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,678,static,private,monofile,global,[
+predicate(handle_directive/2,679,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1977,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,855,static,private,monofile,global,[
+predicate(foreign_get_options/1,856,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2005,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,862,static,private,monofile,global,[
+predicate(foreign_get_options1/1,863,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2103,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,866,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,867,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2131,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,896,static,private,monofile,global,[
+predicate(foreign_check_types/4,897,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2173,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,899,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,900,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2216,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,917,static,private,monofile,global,[
+predicate(foreign_check_arg/1,918,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2335,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,937,static,private,monofile,global,[
+predicate(embed_clause/3,938,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2368,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,938,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2400,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,938,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2430,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,958,static,private,monofile,global,[
+predicate(handle_init_directive/3,959,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2454,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,966,static,private,monofile,global,[
+predicate(embed_directive/2,967,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2481,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,967,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2505,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,967,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2534,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,984,static,private,monofile,global,[
+predicate(exec_directive/1,985,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2565,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,992,static,private,monofile,global,[
+predicate(exec_directive_exception/2,993,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2576,7 +2580,7 @@ predicate(exec_directive_exception/2,992,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,998,static,private,monofile,global,[
+predicate(record_initialization/3,999,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2605,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1007,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1008,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2635,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1009,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1010,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2662,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1019,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1020,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2689,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1021,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1022,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2714,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1032,static,private,monofile,global,[
+predicate(add_module_export_info/2,1033,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2744,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1035,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2787,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1035,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2810,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1050,static,private,monofile,global,[
+predicate(check_pi_specif/3,1051,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2836,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1064,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1065,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2917,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1089,static,private,monofile,global,[
+predicate(check_callable/2,1090,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2948,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1103,static,private,monofile,global,[
+predicate(check_module_name/2,1104,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2972,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1124,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1125,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2994,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1134,static,private,monofile,global,[
+predicate(check_module_clash/2,1135,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3034,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1146,static,private,monofile,global,[
+predicate(get_owner_module/3,1147,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3061,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1154,static,private,monofile,global,[
+predicate(is_exported/2,1155,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3078,7 +3082,7 @@ predicate(is_exported/2,1154,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3091,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1160,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1161,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3130,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1172,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1173,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3165,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1179,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1180,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3221,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1191,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1192,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3253,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1203,static,private,monofile,global,[
+predicate(define_predicate/2,1204,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3315,11 +3319,11 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1223,static,private,monofile,global,[
+predicate(flag_bit/2,1224,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
-    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21)]),
+    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21),(wrapper,23)]),
 
 label(2),
     try_me_else(4),
@@ -3394,15 +3398,23 @@ label(19),
     proceed,
 
 label(20),
-    trust_me_else_fail,
+    retry_me_else(22),
 
 label(21),
     get_atom(embed,0),
     get_integer(9,1),
+    proceed,
+
+label(22),
+    trust_me_else_fail,
+
+label(23),
+    get_atom(wrapper,0),
+    get_integer(10,1),
     proceed]).
 
 
-predicate(set_pred_flag/3,1238,static,private,monofile,global,[
+predicate(set_pred_flag/3,1240,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3430,7 +3442,7 @@ predicate(set_pred_flag/3,1238,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1238,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1240,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3450,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1249,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1251,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3484,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1260,static,private,monofile,global,[
+predicate(test_pred_flag/3,1262,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3511,7 +3523,7 @@ predicate(test_pred_flag/3,1260,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1268,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1270,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3543,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1323,static,private,monofile,global,[
+predicate(check_predicate/2,1325,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3658,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1352,static,private,monofile,global,[
+predicate(reserved_predicate/2,1354,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3693,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1357,static,private,monofile,global,[
+predicate(bip/2,1359,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3705,7 +3717,7 @@ predicate(bip/2,1357,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1365,static,private,monofile,global,[
+predicate(control_construct/2,1367,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3784,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1382,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1384,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3849,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1393,static,private,monofile,global,[
+predicate(warn/2,1395,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3857,7 +3869,7 @@ predicate(warn/2,1393,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1399,static,private,monofile,global,[
+predicate(error/2,1401,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3874,7 +3886,7 @@ predicate(error/2,1399,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1399,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1401,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3890,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1411,static,private,monofile,global,[
+predicate(abandon_exec/0,1413,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1417,static,private,monofile,global,[
+predicate(disp_msg/4,1419,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3919,7 +3931,7 @@ predicate(disp_msg/4,1417,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1417,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1419,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3946,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1434,static,private,monofile,global,[
+predicate(disp_file_name/3,1436,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3982,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1439,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4015,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1439,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4031,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1453,static,private,monofile,global,[
+predicate(disp_lines/1,1455,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4073,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1462,static,private,monofile,global,[
+predicate(disp_column/1,1464,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4093,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1474,static,private,monofile,global,[
+predicate(exception/1,1476,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4193,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,688,static,private,monofile,global,[
+predicate(handle_directive/3,689,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4640,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,826,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,827,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4668,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,805,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,806,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4720,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,788,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,789,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4745,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4758,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4782,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4795,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4819,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,735,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,736,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4836,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,727,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,728,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4853,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,719,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,720,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4870,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,711,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,712,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From dcb90ffd326b1c5be5ab7d80d6f14009f4e669a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 05/58] fix: initialization directives with auxiliary
 predicates no longer clash

Each initialization directive is compiled to its own $exe_user/0 and restarted
the numbering of auxiliary predicates: two directives containing a disjunction,
an if-then-else or a negation could not be assembled.
---
 src/Pl2Wam/syn_sugar.pl  |  5 +++
 src/Pl2Wam/syn_sugar.wam | 75 ++++++++++++++++++++++------------------
 2 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/Pl2Wam/syn_sugar.pl b/src/Pl2Wam/syn_sugar.pl
index f8c3ead..ca8845d 100644
--- a/src/Pl2Wam/syn_sugar.pl
+++ b/src/Pl2Wam/syn_sugar.pl
@@ -45,6 +45,11 @@
 syntactic_sugar_init_pred(Pred, _, _) :-
 	'$aux_name'(Pred), !.
 
+    /* There is one '$exe_user'/0 per initialization directive: continue the
+     * numbering, else their aux predicates clash.
+     */
+syntactic_sugar_init_pred('$exe_user', 0, _) :- !.
+
     /* Caution: the aux predicates stemming from a multifile pred p/n can
      * cause name clashes when compiled to byte-code.
      * These aux pred names are named p/n_$aux<K> where K is a seq number.
diff --git a/src/Pl2Wam/syn_sugar.wam b/src/Pl2Wam/syn_sugar.wam
index b452cfc..552c0ff 100644
--- a/src/Pl2Wam/syn_sugar.wam
+++ b/src/Pl2Wam/syn_sugar.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: syn_sugar.pl
-% hash: b772e34609c1ef24fe6b025a4d576298d39645c9  syn_sugar.pl
+% hash: 3283acb0dfdb7c6a6958b2fc4569a030abbb86b7  syn_sugar.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/syn_sugar.pl').
@@ -18,6 +18,13 @@ predicate(syntactic_sugar_init_pred/3,45,static,private,monofile,global,[
     proceed,
 
 label(1),
+    retry_me_else(2),
+    get_atom('$exe_user',0),
+    get_integer(0,1),
+    cut(x(3)),
+    proceed,
+
+label(2),
     trust_me_else_fail,
     allocate(1),
     put_variable(y(0),3),
@@ -29,7 +36,7 @@ label(1),
     proceed]).
 
 
-predicate('$syntactic_sugar_init_pred/3_$aux1'/4,58,static,private,monofile,local,[
+predicate('$syntactic_sugar_init_pred/3_$aux1'/4,63,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -77,7 +84,7 @@ label(1),
     proceed]).
 
 
-predicate('$syntactic_sugar_init_pred/3_$aux2'/4,58,static,private,monofile,local,[
+predicate('$syntactic_sugar_init_pred/3_$aux2'/4,63,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -99,7 +106,7 @@ label(1),
     proceed]).
 
 
-predicate(syntactic_sugar/3,79,static,private,monofile,global,[
+predicate(syntactic_sugar/3,84,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -121,7 +128,7 @@ predicate(syntactic_sugar/3,79,static,private,monofile,global,[
     execute(normalize_alts/3)]).
 
 
-predicate('$syntactic_sugar/3_$aux1'/3,79,static,private,monofile,local,[
+predicate('$syntactic_sugar/3_$aux1'/3,84,static,private,monofile,local,[
     try_me_else(1),
     get_structure((:-)/2,0),
     unify_local_value(x(1)),
@@ -135,7 +142,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_cuts/3,154,static,private,monofile,global,[
+predicate(normalize_cuts/3,159,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -155,7 +162,7 @@ predicate(normalize_cuts/3,154,static,private,monofile,global,[
     execute('$normalize_cuts/3_$aux1'/4)]).
 
 
-predicate('$normalize_cuts/3_$aux1'/4,154,static,private,monofile,local,[
+predicate('$normalize_cuts/3_$aux1'/4,159,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -175,7 +182,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_cuts1/4,165,static,private,monofile,global,[
+predicate(normalize_cuts1/4,170,static,private,monofile,global,[
     try_me_else(1),
     get_variable(x(4),0),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(4)]),
@@ -426,7 +433,7 @@ label(24),
     execute('$normalize_cuts1/4_$aux5'/2)]).
 
 
-predicate('$normalize_cuts1/4_$aux5'/2,232,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux5'/2,237,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -443,7 +450,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$normalize_cuts1/4_$aux4'/3,212,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux4'/3,217,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -464,7 +471,7 @@ label(1),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux3'/3,198,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux3'/3,203,static,private,monofile,local,[
     try_me_else(1),
     put_atom(optim_fail,3),
     put_atom(t,4),
@@ -492,7 +499,7 @@ label(2),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux2'/10,171,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux2'/10,176,static,private,monofile,local,[
     pragma_arity(11),
     get_current_choice(x(10)),
     try_me_else(1),
@@ -531,7 +538,7 @@ label(1),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux1'/7,171,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux1'/7,176,static,private,monofile,local,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
@@ -584,7 +591,7 @@ label(5),
     proceed]).
 
 
-predicate(normalize_cuts_in_if/2,247,static,private,monofile,global,[
+predicate(normalize_cuts_in_if/2,252,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),1),
     put_variable(y(1),1),
@@ -599,7 +606,7 @@ predicate(normalize_cuts_in_if/2,247,static,private,monofile,global,[
     execute('$normalize_cuts_in_if/2_$aux1'/4)]).
 
 
-predicate('$normalize_cuts_in_if/2_$aux1'/4,247,static,private,monofile,local,[
+predicate('$normalize_cuts_in_if/2_$aux1'/4,252,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -619,7 +626,7 @@ label(1),
     proceed]).
 
 
-predicate(distrib_module_qualif/3,258,static,private,monofile,global,[
+predicate(distrib_module_qualif/3,263,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(12),
@@ -727,7 +734,7 @@ label(12),
     proceed]).
 
 
-predicate(distrib_module_qualif_goal/3,283,static,private,monofile,global,[
+predicate(distrib_module_qualif_goal/3,288,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -748,7 +755,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_alts/3,292,static,private,monofile,global,[
+predicate(normalize_alts/3,297,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(1),
@@ -766,7 +773,7 @@ predicate(normalize_alts/3,292,static,private,monofile,global,[
     proceed]).
 
 
-predicate(normalize_alts1/3,299,static,private,monofile,global,[
+predicate(normalize_alts1/3,304,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -861,7 +868,7 @@ label(3),
     proceed]).
 
 
-predicate(init_aux_pred_name/4,326,static,private,monofile,global,[
+predicate(init_aux_pred_name/4,331,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     allocate(5),
@@ -896,7 +903,7 @@ predicate(init_aux_pred_name/4,326,static,private,monofile,global,[
     proceed]).
 
 
-predicate('$init_aux_pred_name/4_$aux1'/4,326,static,private,monofile,local,[
+predicate('$init_aux_pred_name/4_$aux1'/4,331,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),2),
@@ -931,11 +938,11 @@ label(2),
     proceed]).
 
 
-predicate(linearize/4,341,static,private,monofile,global,[
+predicate(linearize/4,346,static,private,monofile,global,[
     execute('$linearize/4_$aux1'/4)]).
 
 
-predicate('$linearize/4_$aux1'/4,341,static,private,monofile,local,[
+predicate('$linearize/4_$aux1'/4,346,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -967,7 +974,7 @@ label(1),
     execute(linearize1/4)]).
 
 
-predicate(linearize1/4,354,static,private,monofile,global,[
+predicate(linearize1/4,359,static,private,monofile,global,[
     get_variable(x(5),1),
     get_variable(x(4),0),
     get_list(3),
@@ -982,7 +989,7 @@ predicate(linearize1/4,354,static,private,monofile,global,[
     execute(copy_term/2)]).
 
 
-predicate(lst_var/3,360,static,private,monofile,global,[
+predicate(lst_var/3,365,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1005,11 +1012,11 @@ label(1),
     execute(lst_var_args/5)]).
 
 
-predicate(lst_var_args/5,370,static,private,monofile,global,[
+predicate(lst_var_args/5,375,static,private,monofile,global,[
     execute('$lst_var_args/5_$aux1'/5)]).
 
 
-predicate('$lst_var_args/5_$aux1'/5,370,static,private,monofile,local,[
+predicate('$lst_var_args/5_$aux1'/5,375,static,private,monofile,local,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -1044,7 +1051,7 @@ label(1),
     proceed]).
 
 
-predicate(pred_rewriting/2,384,static,private,monofile,global,[
+predicate(pred_rewriting/2,389,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(6),
@@ -1319,7 +1326,7 @@ label(21),
     proceed]).
 
 
-predicate('$pred_rewriting/2_$aux2'/1,397,static,private,monofile,local,[
+predicate('$pred_rewriting/2_$aux2'/1,402,static,private,monofile,local,[
     try_me_else(1),
     get_atom(is,0),
     proceed,
@@ -1330,7 +1337,7 @@ label(1),
     execute(math_cmp_functor_name/2)]).
 
 
-predicate('$pred_rewriting/2_$aux1'/3,388,static,private,monofile,local,[
+predicate('$pred_rewriting/2_$aux1'/3,393,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1356,7 +1363,7 @@ label(1),
     proceed]).
 
 
-predicate(test_c_call_allowed/1,458,static,private,monofile,global,[
+predicate(test_c_call_allowed/1,463,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1375,12 +1382,12 @@ label(1),
     execute(error/2)]).
 
 
-predicate(meta_pred_rewriting/2,477,static,private,monofile,global,[
+predicate(meta_pred_rewriting/2,482,static,private,monofile,global,[
     get_value(x(1),0),
     proceed]).
 
 
-predicate(meta_pred_rewrite_args/5,482,static,private,monofile,global,[
+predicate(meta_pred_rewrite_args/5,487,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -1421,7 +1428,7 @@ label(1),
     proceed]).
 
 
-predicate(meta_pred_rewrite_arg/3,496,static,private,monofile,global,[
+predicate(meta_pred_rewrite_arg/3,501,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
-- 
2.43.0


From 56c3bc5e5371ec5f4ac3d47aa8e9e8fa5e34b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 06/58] fix: g_assign/2 with an argument selector on a linked
 term corrupted the heap

---
 src/BipsPl/g_var_inl_c.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 90c40c2..c2fe0d0 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -620,10 +620,11 @@ static void
 G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 {
   WamWord *adr;
+  WamWord save_arg;
   PlLong size;
   GUndo *u;
 
-  if (Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
+  if (g_elem->size > 0 && Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
     {
       Pl_Copy_Term(g_arg, &word);
 				/* simulate the G_Free_Element */
@@ -636,8 +637,15 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 
 				/* similar to g_read + g_assign */
 
-  *g_arg = word;		/* set the argument */
-  Pl_Copy_Term(H, (WamWord *) g_elem->val);
+				/* (a link becomes a copy) */
+  Pl_Copy_Term(H, &word);	/* word can contain the linked term */
+  word = *H;
+  H += Pl_Term_Size(word);
+
+  save_arg = *g_arg;
+  *g_arg = word;		/* set the argument for the copy */
+  Pl_Copy_Term(H, (g_elem->size == 0) ? &g_elem->val : (WamWord *) g_elem->val);
+  *g_arg = save_arg;		/* a linked term remains unchanged */
 
   G_Free_Element(g_elem, TRUE);
 
-- 
2.43.0


From b884bbd21b55a987e48ec047616788544b6460b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 07/58] fix: redefining or extending a global variable array
 with a smaller size overran the new array

---
 src/BipsPl/g_var_inl_c.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index c2fe0d0..e8ce45b 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -701,14 +701,21 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
     array_op = G_ARRAY;
 
-  if (array_op != G_ARRAY_EXTEND && !backtrack)
-    {
-      G_Free_Element(g_elem, TRUE);
+  if (array_op != G_ARRAY_EXTEND)
+    {				/* a new array (the old value is saved if backtrack) */
+      if (!backtrack)
+	G_Free_Element(g_elem, TRUE);
       g_elem->size = 0;
     }
 
   size = -g_elem->size;
 
+  if (new_size <= size)		/* extend to a smaller size: keep the current size */
+    {
+      new_size = size;
+      same_init_value = TRUE;	/* no new element */
+    }
+
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
   if (array_op == G_ARRAY_EXTEND)
-- 
2.43.0


From ad610d4e651b59477939e48879f000b6741d9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 08/58] fix: an invalid nested array definition left a global
 variable with uninitialized elements

---
 src/BipsPl/g_var_inl_c.c | 121 +++++++++++++++++++++++++++++----------
 1 file changed, 92 insertions(+), 29 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index e8ce45b..9b8f6bf 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -122,6 +122,10 @@ static void G_Assign_Element(GVarElt *g_elem, WamWord gval_word,
 
 static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 
+static int G_Array_Op(WamWord word);
+
+static void G_Check_Array(WamWord word);
+
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 			   Bool backtrack, Bool copy);
 
@@ -532,7 +536,10 @@ G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
       G_Assign_Arg(g_elem, g_arg, gval_word);
     }
   else
-    G_Assign_Element(g_elem, gval_word, backtrack, copy);
+    {
+      G_Check_Array(gval_word);	/* errors are detected before any change */
+      G_Assign_Element(g_elem, gval_word, backtrack, copy);
+    }
 }
 
 
@@ -548,7 +555,6 @@ G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
   WamWord word, tag_mask;
   WamWord *adr;
   PlLong size;
-  int atom;
   PlLong save_size;
   WamWord save_val;
   int array_op;
@@ -558,26 +564,13 @@ G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
 
   DEREF(gval_word, word, tag_mask);
 
-  if (tag_mask != TAG_STC_MASK)
-    goto not_an_array;
-
-  adr = UnTag_STC(word);
-  atom = Functor(adr);
-
-  if (atom == atom_g_array)
-    array_op = G_ARRAY;
-  else if (atom == atom_g_array_auto)
-    array_op = G_ARRAY_AUTO;
-  else if (atom == atom_g_array_extend)
-    array_op = G_ARRAY_EXTEND;
-  else goto not_an_array;
-
-				/* an array */
-  G_Assign_Array(g_elem, adr, array_op, backtrack, copy);
-  goto finish;
-
+  array_op = G_Array_Op(word);
 
- not_an_array:
+  if (array_op >= 0)
+    {				/* an array */
+      G_Assign_Array(g_elem, UnTag_STC(word), array_op, backtrack, copy);
+      goto finish;
+    }
 
   if (!backtrack)
     G_Free_Element(g_elem, TRUE);
@@ -662,6 +655,82 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_ARRAY_OP                                                              *
+ *                                                                         *
+ * Returns the array operation described by a dereferenced word or -1.     *
+ *-------------------------------------------------------------------------*/
+static int
+G_Array_Op(WamWord word)
+{
+  int atom;
+
+  if (Tag_Mask_Of(word) != TAG_STC_MASK)
+    return -1;
+
+  atom = Functor(UnTag_STC(word));
+
+  if (atom == atom_g_array)
+    return G_ARRAY;
+
+  if (atom == atom_g_array_auto)
+    return G_ARRAY_AUTO;
+
+  if (atom == atom_g_array_extend)
+    return G_ARRAY_EXTEND;
+
+  return -1;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * G_CHECK_ARRAY                                                           *
+ *                                                                         *
+ * Checks an array definition and, recursively, its initial values.        *
+ *-------------------------------------------------------------------------*/
+static void
+G_Check_Array(WamWord gval_word)
+{
+  WamWord word, tag_mask;
+  WamWord *stc_adr, *lst_adr;
+  PlLong new_size;
+  int arity;
+
+  DEREF(gval_word, word, tag_mask);
+
+  if (G_Array_Op(word) < 0)
+    return;
+
+  stc_adr = UnTag_STC(word);
+  arity = Arity(stc_adr);
+
+  DEREF(Arg(stc_adr, 0), word, tag_mask);
+  new_size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);
+
+  if (!(new_size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
+			 (tag_mask == TAG_LST_MASK && arity == 1))))
+    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
+
+  if (tag_mask == TAG_INT_MASK)
+    {
+      if (arity == 2)
+	G_Check_Array(Arg(stc_adr, 1));
+      return;
+    }
+
+  while(tag_mask == TAG_LST_MASK)
+    {
+      lst_adr = UnTag_LST(word);
+      G_Check_Array(Car(lst_adr));
+      DEREF(Cdr(lst_adr), word, tag_mask);
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ASSIGN_ARRAY                                                          *
  *                                                                         *
@@ -671,26 +740,20 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 	       Bool backtrack, Bool copy)
 {
   WamWord word, tag_mask;
-  int arity;
   Bool same_init_value;
   WamWord init_word = 0;	/* init for the compiler */
   WamWord lst_word = 0;		/* init for the compiler */
   PlLong new_size, size, i;
   GVarElt *p;
 
-  arity = Arity(stc_adr);
-
+				/* the term has been checked by G_Check_Array */
   DEREF(Arg(stc_adr, 0), word, tag_mask);
   new_size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);
 
-  if (!(new_size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
-			 (tag_mask == TAG_LST_MASK && arity == 1))))
-    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
-
   if (tag_mask == TAG_INT_MASK)
     {
       same_init_value = TRUE;
-      init_word = (arity == 1) ? G_INITIAL_VALUE : Arg(stc_adr, 1);
+      init_word = (Arity(stc_adr) == 1) ? G_INITIAL_VALUE : Arg(stc_adr, 1);
     }
   else
     {
-- 
2.43.0


From 7ea817fd9f2c06843215d8e0bae5a3398f19d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 09/58] fix: an integer stored by g_link/2 in a variable bound
 later was not dereferenced

---
 src/BipsPl/g_var_inl_c.c | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 9b8f6bf..ada45f4 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -907,8 +907,6 @@ G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack)
 static GTarget *
 Get_Target_From_Gvar(WamWord gvar_word)
 {
-  WamWord word, tag_mask;
-  WamWord word1;
   int atom;
   int arity;
   WamWord *arg_adr;
@@ -943,15 +941,8 @@ Get_Target_From_Gvar(WamWord gvar_word)
 
   for (i = 0; i < arity; i++)
     {
-      size = g_elem->size;
-
-      word1 = *arg_adr;
-      DEREF(word1, word, tag_mask);
-
-      if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word);
-
-      index = UnTag_INT(word);
+      index = Get_Int_From_Word(*arg_adr);
+      size = g_elem->size;	/* after the index (it can expand the array) */
 
       if (size >= 0 || index < 0)
 	goto error;
@@ -1081,15 +1072,17 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
   GTarget save_g_target = g_target; /* save for cross-recursion */
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
   WamWord *adr = Get_Term_Addr_From_Target(gt);
+  WamWord word, tag_mask;
 
   g_target = save_g_target;
-				/* should be dereferenced */
 
   if (adr == NULL)		/* an array */
     Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
 
-  if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
-     Pl_Err_Type(pl_type_integer, *adr);
+  DEREF(*adr, word, tag_mask);	/* needed for a link */
+
+  if (tag_mask != TAG_INT_MASK)
+     Pl_Err_Type(pl_type_integer, word);
 
   return adr;
 }
@@ -1104,7 +1097,11 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
 static PlLong
 Get_Int_From_Gvar(WamWord gvar_word)
 {
-  return *Get_Int_Addr_From_Gvar(gvar_word);
+  WamWord word, tag_mask;
+
+  DEREF(*Get_Int_Addr_From_Gvar(gvar_word), word, tag_mask);
+
+  return word;
 }
 
 
@@ -1122,7 +1119,7 @@ Get_Int_From_Word(WamWord start_word)
   DEREF(start_word, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-    word = *Get_Int_Addr_From_Gvar(word);
+    word = Get_Int_From_Gvar(word);
 
   return UnTag_INT(word);
 }
@@ -1391,6 +1388,7 @@ G_Array_Size(WamWord gvar_word, WamWord size_word)
 static Bool
 G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
 {
+  WamWord word, tag_mask;
   WamWord *adr;
   PlLong old, new;
 
@@ -1403,7 +1401,8 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
 
   adr = Get_Int_Addr_From_Gvar(gvar_word);
 
-  old = UnTag_INT(*adr);
+  DEREF(*adr, word, tag_mask);
+  old = UnTag_INT(word);
   new = old + inc;
 
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
@@ -1427,13 +1426,15 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
 static void
 G_Set_Bit(WamWord gvar_word, WamWord bit_word)
 {
+  WamWord word, tag_mask;
   WamWord *adr;
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
   adr = Get_Int_Addr_From_Gvar(gvar_word);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
-  *adr |= mask;
+  DEREF(*adr, word, tag_mask);
+  *adr = word | mask;
 }
 
 
@@ -1446,13 +1447,15 @@ G_Set_Bit(WamWord gvar_word, WamWord bit_word)
 static void
 G_Reset_Bit(WamWord gvar_word, WamWord bit_word)
 {
+  WamWord word, tag_mask;
   WamWord *adr;
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
   adr = Get_Int_Addr_From_Gvar(gvar_word);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
-  *adr &= ~mask;
+  DEREF(*adr, word, tag_mask);
+  *adr = word & ~mask;
 }
 
 
-- 
2.43.0


From aead1aa19836baabf4a2e1c86e458d1e371526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 10/58] fix: member/2 lost or invented answers when the list
 tail is bound by the unification of an element

member(X, [f(T)|T]) examined the tail after unifying the element: a tail
variable bound by that unification ended the enumeration (or continued it
inside the stale binding).
---
 src/BipsPl/list_c.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index 9f14da8..ce9f1a6 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -208,11 +208,13 @@ Bool Pl_Member_3(void)
 
   for(;;)
     {
+      /* the tail must be examined before the unification (which can bind it) */
+      DEREF(A(2), word, tag_mask);
+
       Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(MEMBER_ALT, 0), 3);
 
       ok = Pl_Unify(A(0), A(1));
 
-      DEREF(A(2), word, tag_mask);
 #if 1
       if (tag_mask != TAG_REF_MASK && tag_mask != TAG_LST_MASK)
 	{
-- 
2.43.0


From ab28e5d1eb272e5c53dee1bfaf7772516f1cf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 11/58] fix: setarg/3,4 stored references to the local stack or
 raw FD words in terms

An unbound permanent variable given as the new value left a reference to the
environment inside the term (dangling once the clause exits); an FD variable
was copied instead of being referenced.
---
 src/BipsPl/term_inl_c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BipsPl/term_inl_c.c b/src/BipsPl/term_inl_c.c
index cca2400..3146f15 100644
--- a/src/BipsPl/term_inl_c.c
+++ b/src/BipsPl/term_inl_c.c
@@ -507,6 +507,11 @@ Pl_Setarg_4(WamWord arg_no_word, WamWord term_word, WamWord new_value_word,
   if (arg_no >= (PlULong) arity) /* include arg_no < 0 since arg_no is a PlULong */
     return FALSE;
 
+  if (tag_mask == TAG_REF_MASK)	/* no reference to the local stack in a term */
+    word = Pl_Globalize_If_In_Local(word);
+  else
+    Do_Copy_Of_Word(tag_mask, word); /* since Dont_Separate_Tag */
+
   if (undo)
     Bind_OV((arg_adr + arg_no), word);
   else
-- 
2.43.0


From 3bf8cbd3b92eea94d30d68b5b25ef3be0822f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 12/58] fix: memberchk/2, term_variables/2,3 and findall/4
 stored references to the local stack

A fresh permanent variable passed as the element, the term or the tail was
stored in the resulting list as a reference to the environment, dangling
once the clause exits.
---
 src/BipsPl/all_solut_c.c | 2 ++
 src/BipsPl/list_c.c      | 2 ++
 src/BipsPl/term_inl_c.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..590e240 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -398,6 +398,8 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
   if (nb_sol == 0)
     return Pl_Unify(list_word, tail_word);
 
+  tail_word = Pl_Globalize_If_In_Local(tail_word); /* it is stored in the list */
+
   handle_key = Pl_Rd_C_Int(handle_key_word);
   key_var_ptr = pl_glob_dico_var;	/* pl_glob_dico_var: key vars */
 
diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index ce9f1a6..078c357 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -274,6 +274,8 @@ Pl_Memberchk_2(WamWord elem_word, WamWord list_word)
 {
   Bool ret;
 
+  elem_word = Pl_Globalize_If_In_Local(elem_word); /* can be stored in the list */
+
   Pl_Defeasible_Open();
 
   for(;;)
diff --git a/src/BipsPl/term_inl_c.c b/src/BipsPl/term_inl_c.c
index 3146f15..b27ce70 100644
--- a/src/BipsPl/term_inl_c.c
+++ b/src/BipsPl/term_inl_c.c
@@ -583,6 +583,8 @@ Pl_Term_Variables_3(WamWord start_word, WamWord list_word, WamWord tail_word)
   if (tail_word == NOT_A_WAM_WORD)
     Pl_Check_For_Un_List(list_word);
 
+  start_word = Pl_Globalize_If_In_Local(start_word); /* a variable is stored in the list */
+
   var_ptr = pl_glob_dico_var;	/* pl_glob_dico_var: stores variables */
 
   Pl_Treat_Vars_Of_Term(start_word, TRUE, Collect_Variable);
-- 
2.43.0


From d61e60458f4c008e1eb0124585c90baa3fb34557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 13/58] fix: bind_variables/2 refused an unbound variable in
 its next(Next) option

Next is documented as unified with the next variable number; the option
raised an instantiation error for a variable and a domain error otherwise.
---
 src/BipsPl/pretty.pl  |  1 -
 src/BipsPl/pretty.wam | 15 ++++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/BipsPl/pretty.pl b/src/BipsPl/pretty.pl
index b50f65f..c2c1e9b 100644
--- a/src/BipsPl/pretty.pl
+++ b/src/BipsPl/pretty.pl
@@ -146,7 +146,6 @@ bind_variables(Term, Options) :-
 	g_link('$bind_from', From).
 
 '$get_bind_variables_options2'(next(Next)) :-
-	'$check_nonvar'(Next), integer(Next),
 	g_link('$bind_next', Next).
 
 '$get_bind_variables_options2'(numbervars) :-
diff --git a/src/BipsPl/pretty.wam b/src/BipsPl/pretty.wam
index 9c43466..8d5d765 100644
--- a/src/BipsPl/pretty.wam
+++ b/src/BipsPl/pretty.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: pretty.pl
-% hash: e5f65b4223376badd4510ec9a9e97842031031a9  pretty.pl
+% hash: 8dce20efb6c2e9aab8517f27db6ddb5ec3875362  pretty.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/pretty.pl').
@@ -260,17 +260,10 @@ label(8),
     retry_me_else(10),
 
 label(9),
-    allocate(1),
     get_structure(next/1,0),
-    unify_variable(y(0)),
-    put_value(y(0),0),
-    call('$check_nonvar'/1),
-    put_value(y(0),0),
-    call_c('Pl_Blt_Integer',[fast_call,boolean],[x(0)]),
+    unify_variable(x(1)),
     put_atom('$bind_next',0),
-    put_value(y(0),1),
     call_c('Pl_Blt_G_Link',[fast_call],[x(0),x(1)]),
-    deallocate,
     proceed,
 
 label(10),
@@ -298,7 +291,7 @@ label(14),
     execute('$pl_err_domain'/2)]).
 
 
-predicate(numbervars/1,164,static,private,monofile,built_in,[
+predicate(numbervars/1,163,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[numbervars,1]),
@@ -311,7 +304,7 @@ predicate(numbervars/1,164,static,private,monofile,built_in,[
     execute('$bind_variables'/4)]).
 
 
-predicate(numbervars/3,170,static,private,monofile,built_in,[
+predicate(numbervars/3,169,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
-- 
2.43.0


From 2f5990e2d8b42133d75f267325279245bb093ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 14/58] fix: sub_atom/5 with a known sub-atom accepted
 positions outside the atom

With B (or A) and Sub known, a B (A) larger than the atom's length gave an
answer with a negative A (B) or read outside the atom's name.
---
 src/BipsPl/atom_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 7f53c1e..234c1c1 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -363,14 +363,14 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       if (mask & 4)		/* B fixed */
 	{
 	  a = length - b - l;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return a >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(a, after_word);
 	}
 
       if (mask & 1)		/* A fixed */
 	{
 	  b = length - l - a;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return b >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(b, before_word);
 	}
       mask = 8;			/* set sub_atom as fixed */
-- 
2.43.0


From 96ac7edb095cd65fc0e53c9624a798ea2e52c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 15/58] fix: sub_atom/5 answered when Length and SubAtom are
 the same variable

The result of unifying the length (and the sub-atom) was ignored.
---
 src/BipsPl/atom_c.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 234c1c1..e96ec7f 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -441,8 +441,9 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       MALLOC_STR(l);
       strncpy(str, patom->name + b, l);
       str[l] = '\0';
-      Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word);
-      Pl_Get_Integer(l, length_word);
+      if (!Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word) ||
+	  !Pl_Get_Integer(l, length_word))
+	return FALSE;
     }
 
   return Pl_Get_Integer(b, before_word) && Pl_Get_Integer(a, after_word);
@@ -503,8 +504,9 @@ Pl_Sub_Atom_Alt_0(void)
       MALLOC_STR(l);
       strncpy(str, patom->name + b, l);
       str[l] = '\0';
-      Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word);
-      Pl_Get_Integer(l, length_word);
+      if (!Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word) ||
+	  !Pl_Get_Integer(l, length_word))
+	return FALSE;
     }
 
   return Pl_Get_Integer(b, before_word) && Pl_Get_Integer(a, after_word);
-- 
2.43.0


From b5d2cef5ead6a00bb9306e2cb95ae81899e17f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 16/58] fix: [] and push-back lists of grammar rules were
 unified before the goals preceding them

---
 src/BipsPl/expand_c.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/expand_c.c b/src/BipsPl/expand_c.c
index 29a771f..89d25b8 100644
--- a/src/BipsPl/expand_c.c
+++ b/src/BipsPl/expand_c.c
@@ -302,7 +302,10 @@ Dcg_Body(WamWord dcg_body_word, Bool in_alt, WamWord in_word,
   Dcg_Body_On_Stack(dcg_body_word, opt_equal_between_in_out_vars, in_word, new_out_word);
 
   if (end_lst_adr)
-    Dcg_Term_List_On_Stack(end_lst_adr, out_word, new_out_word);
+    {				/* out_word is in the head: optimize only if there is no goal before */
+      opt_term_unif = (top == base);
+      Dcg_Term_List_On_Stack(end_lst_adr, out_word, new_out_word);
+    }
   else if (in_alt)
     {
       if (Pl_Blt_Term_Eq(in_word, new_out_word))
@@ -363,7 +366,8 @@ Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars,
 
   if (word == NIL_WORD)
     {
-      opt_equal_between_in_out_vars = TRUE; /* deactivate to not always optimize [] as unif */
+      /* [] can always be optimized if no goal has to be executed before (steadfastness) */
+      opt_equal_between_in_out_vars |= opt_term_unif;
     in_is_out:
       if (opt_equal_between_in_out_vars)
 	Pl_Unify(in_word, out_word);
-- 
2.43.0


From aacf9651e1303d306f98765383e63f0e5fb1c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 17/58] fix: lsb, msb and popcount of a negative integer
 crashed instead of raising the error

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index fa0101e..5f23c60 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1052,7 +1052,7 @@ Pl_Fct_Fast_LSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
 }
 
@@ -1061,7 +1061,7 @@ Pl_Fct_Fast_MSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
 }
 
@@ -1070,7 +1070,7 @@ Pl_Fct_Fast_Popcount(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT(Pl_Count_Set_Bits(x));
 }
 
-- 
2.43.0


From 9527974f49ea068d1ad8f82ff406594d00cb050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 18/58] fix: left shift of a negative integer wrapped around
 instead of reporting overflow

---
 src/BipsPl/arith_inl_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 5f23c60..ed77cf4 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1004,7 +1004,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
   if (y < 0)
     {
       if (y == INT_LOWEST_VALUE)
-	  return Tag_INT(0);
+	  return (x < 0) ? Tag_INT(-1) : Tag_INT(0);
       return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
     }
   
@@ -1016,7 +1016,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     }
   else
     {
-      if (x > (INT_GREATEST_VALUE >> y))
+      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
       z = x << y;
     }
-- 
2.43.0


From c0bdb7966caac5cffbf2e96542c7e2daf4d140ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 19/58] fix: gcd of two lowest integers wrapped around instead
 of reporting overflow

---
 src/BipsPl/arith_inl_c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index ed77cf4..807ce38 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1112,6 +1112,8 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
       x = y;
       y = r;
     }
+  if (x > INT_GREATEST_VALUE)	/* both are INT_LOWEST_VALUE */
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
   return Tag_INT(x);
 }
 
-- 
2.43.0


From 17bac26814eb7a99c63c18e983afa088b7458579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 20/58] fix: succ/2 did not dereference its second argument
 before testing its sign

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 807ce38..42f83b1 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -555,7 +555,7 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
       DEREF(y_word, word, tag_mask);
       if (tag_mask == TAG_INT_MASK)
 	{
-	  y = UnTag_INT(y_word);
+	  y = UnTag_INT(word);
 	  if (y < 0)
 	    Pl_Err_Domain(pl_domain_not_less_than_zero, y_word);
 	}
-- 
2.43.0


From ec65b8cfe308086d3f52a08518b065dab0a086a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 21/58] fix: bodies inside *-> were not converted to goals by
 call/1 and assertz/1

---
 src/BipsPl/utils.pl  |  5 +++++
 src/BipsPl/utils.wam | 52 +++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/utils.pl b/src/BipsPl/utils.pl
index 2c9f213..f1fcb28 100644
--- a/src/BipsPl/utils.pl
+++ b/src/BipsPl/utils.pl
@@ -70,6 +70,11 @@
 	'$term_to_goal2'(P, P1),
 	'$term_to_goal2'(Q, Q1).
 
+'$term_to_goal2'((P *-> Q), (P1 *-> Q1)) :-
+	!,
+	'$term_to_goal2'(P, P1),
+	'$term_to_goal2'(Q, Q1).
+
 '$term_to_goal2'((P, Q), (P1, Q1)) :-
 	!,
 	'$term_to_goal2'(P, P1),
diff --git a/src/BipsPl/utils.wam b/src/BipsPl/utils.wam
index 34b5138..086ae9c 100644
--- a/src/BipsPl/utils.wam
+++ b/src/BipsPl/utils.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: utils.pl
-% hash: 01de49572bcd6fe75b31fbf4ef2a1717bd527361  utils.pl
+% hash: c56a23910d46b91b49a5dd76d731f25f1b045987  utils.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/utils.pl').
@@ -67,11 +67,11 @@ predicate('$term_to_goal2'/2,59,static,private,monofile,built_in,[
     execute('$$term_to_goal2/2_$aux1'/3),
 
 label(1),
-    retry_me_else(9),
+    retry_me_else(11),
     switch_on_term(3,fail,fail,fail,2),
 
 label(2),
-    switch_on_structure([((->)/2,4),((',')/2,6),((;)/2,8)]),
+    switch_on_structure([((->)/2,4),((*->)/2,6),((',')/2,8),((;)/2,10)]),
 
 label(3),
     try_me_else(5),
@@ -95,6 +95,24 @@ label(5),
     retry_me_else(7),
 
 label(6),
+    allocate(2),
+    get_structure((*->)/2,0),
+    unify_variable(x(0)),
+    unify_variable(y(0)),
+    get_structure((*->)/2,1),
+    unify_variable(x(1)),
+    unify_variable(y(1)),
+    cut(x(2)),
+    call('$term_to_goal2'/2),
+    put_value(y(0),0),
+    put_value(y(1),1),
+    deallocate,
+    execute('$term_to_goal2'/2),
+
+label(7),
+    retry_me_else(9),
+
+label(8),
     allocate(2),
     get_structure((',')/2,0),
     unify_variable(x(0)),
@@ -109,10 +127,10 @@ label(6),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(7),
+label(9),
     trust_me_else_fail,
 
-label(8),
+label(10),
     allocate(2),
     get_structure((;)/2,0),
     unify_variable(x(0)),
@@ -127,7 +145,7 @@ label(8),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(9),
+label(11),
     trust_me_else_fail,
     get_value(x(1),0),
     call_c('Pl_Blt_Callable',[fast_call,boolean],[x(1)]),
@@ -152,7 +170,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_list'/1,93,static,private,monofile,built_in,[
+predicate('$check_list'/1,98,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -173,7 +191,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_list_or_partial_list'/1,106,static,private,monofile,built_in,[
+predicate('$check_list_or_partial_list'/1,111,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -188,7 +206,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list'/1,115,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list'/1,120,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -206,7 +224,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_atom_or_atom_list1'/1,122,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list1'/1,127,static,private,monofile,built_in,[
     try_me_else(1),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(0)]),
     execute('$pl_err_instantiation'/0),
@@ -242,7 +260,7 @@ label(6),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list2'/1,136,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list2'/1,141,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -263,7 +281,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$get_head_and_body'/3,149,static,private,monofile,built_in,[
+predicate('$get_head_and_body'/3,154,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -282,7 +300,7 @@ label(1),
     execute('$check_head'/1)]).
 
 
-predicate('$check_head'/1,159,static,private,monofile,built_in,[
+predicate('$check_head'/1,164,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -295,7 +313,7 @@ label(1),
     execute('$$check_head/1_$aux1'/1)]).
 
 
-predicate('$$check_head/1_$aux1'/1,163,static,private,monofile,local,[
+predicate('$$check_head/1_$aux1'/1,168,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -310,7 +328,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_nonvar'/1,172,static,private,monofile,built_in,[
+predicate('$check_nonvar'/1,177,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -323,7 +341,7 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$check_ground'/1,181,static,private,monofile,built_in,[
+predicate('$check_ground'/1,186,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -336,6 +354,6 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$get_pred_indic'/3,190,static,private,monofile,built_in,[
+predicate('$get_pred_indic'/3,195,static,private,monofile,built_in,[
     call_c('Pl_Get_Pred_Indic_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
-- 
2.43.0


From 0044bb6c2baf45d8723e8969d8e3a1273b0820e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 22/58] fix: fd_labeling rejected the documented option
 value_method(bounds)

---
 src/BipsFD/fd_values.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsFD/fd_values.pl b/src/BipsFD/fd_values.pl
index c84af15..7542ca5 100644
--- a/src/BipsFD/fd_values.pl
+++ b/src/BipsFD/fd_values.pl
@@ -172,6 +172,8 @@ fd_labeling(List, Options) :-
 	    '$sys_var_write'(1, 3)
 	;   X = bisect,
 	    '$sys_var_write'(1, 4)
+	;   X = bounds,
+	    '$sys_var_write'(1, 5)
 	;   X = limits,
 	    '$sys_var_write'(1, 5)
 	).
-- 
2.43.0


From c4c088569d1e347814dc94fa53b97bae5bc2c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 23/58] fix: min/max with full arc consistency dropped Z=<Y
 (Z>=Y) once Y and Z were disjoint

---
 src/BipsFD/fd_math_fd.fd | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/BipsFD/fd_math_fd.fd b/src/BipsFD/fd_math_fd.fd
index 4223e52..21ac1d1 100644
--- a/src/BipsFD/fd_math_fd.fd
+++ b/src/BipsFD/fd_math_fd.fd
@@ -619,15 +619,11 @@ pl_min_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))     /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
@@ -749,15 +745,11 @@ pl_max_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))      /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
-- 
2.43.0


From 3c1abb822a572aedfd68a04223cc0ed9aa192572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 24/58] fix: read_token/1-2 refuses an integer beyond
 max_integer instead of wrapping it

---
 src/BipsPl/parser_supp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 646c79e..f7edd5a 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -890,6 +890,7 @@ Pl_Read_Token(StmInf *pstm)
       break;
 
     case TOKEN_INTEGER:
+      CHECK_INTEGER_BOUNDS(FALSE);
       term = Pl_Put_Integer(pl_token.int_num);
       break;
 
-- 
2.43.0


From baeedd1f311fe096b83103f2ac495f2552b20c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 25/58] fix: '$VAR'(N) with N beyond the range of int is not
 truncated by numbervars(true)

---
 src/BipsPl/write_supp.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/write_supp.c b/src/BipsPl/write_supp.c
index e17b239..bd07f92 100644
--- a/src/BipsPl/write_supp.c
+++ b/src/BipsPl/write_supp.c
@@ -191,7 +191,7 @@ static void Show_Term(int depth, int prec, int context, WamWord term_word);
 
 static int Get_Var_Name_From_Stc(WamWord f_n, WamWord *stc_adr);
 
-static int Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr);
+static PlLong Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr);
 
 static Bool Is_Rendered_As_Var(WamWord word);
 
@@ -654,16 +654,16 @@ Get_Var_Name_From_Stc(WamWord f_n, WamWord *stc_adr)
  *                                                                         *
  * return the number N from '$VAR'(N) (or -1 if none)                      *
  *-------------------------------------------------------------------------*/
-static int
+static PlLong
 Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr)
 {
   WamWord word, tag_mask;
-  int n;
+  PlLong n;
 
   if (number_vars && f_n == dollar_var_1 && stc_adr >= name_number_above_H)
     {
       DEREF(Arg(stc_adr, 0), word, tag_mask);
-      if (tag_mask == TAG_INT_MASK && (n = (int) UnTag_INT(word)) >= 0)
+      if (tag_mask == TAG_INT_MASK && (n = UnTag_INT(word)) >= 0)
 	return n;
     }
   return -1;
@@ -1106,7 +1106,8 @@ Show_Structure(int depth, int prec, int context, WamWord *stc_adr)
   int functor = Functor(stc_adr);
   int arity = Arity(stc_adr);
   int atom_of_varname;
-  int n, i, j;
+  int i;
+  PlLong n, j;
   OperInf *oper;
   int nb_args_to_disp;
   char str[32];
@@ -1136,7 +1137,7 @@ Show_Structure(int depth, int prec, int context, WamWord *stc_adr)
 
       if (j)
 	{
-	  sprintf(str, "%d", j);
+	  sprintf(str, "%" PL_FMT_d, j);
 	  Out_String(str);
 	}
 
-- 
2.43.0


From 8824e20d908c669b45461cfb91882fde141509cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 26/58] fix: portray_clause keeps the body 'true' of a grammar
 rule

---
 src/BipsPl/pretty_c.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/BipsPl/pretty_c.c b/src/BipsPl/pretty_c.c
index 02e4d93..9e8511a 100644
--- a/src/BipsPl/pretty_c.c
+++ b/src/BipsPl/pretty_c.c
@@ -221,14 +221,9 @@ Portray_Clause(StmInf *pstm, WamWord term_word)
   if (Check_Structure(term_word, atom_dcg, 2, arg_word))
     {
       Pl_Write_Term(pstm, 0, 1200 - 1, WRITE_MASK, above_H, arg_word[0]);
-      DEREF(arg_word[1], word, tag_mask);
-      atom = UnTag_ATM(word);
-      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true)
-	{
-	  Pl_Stream_Puts(" -->", pstm);
-	  Start_Line(pstm, 0, ' ');
-	  Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
-	}
+      Pl_Stream_Puts(" -->", pstm);
+      Start_Line(pstm, 0, ' ');
+      Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
       Pl_Write_A_Full_Stop(pstm);
       return;
     }
-- 
2.43.0


From 0465b30223e9d070987a839fee2123a40a3ecf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 27/58] fix: portray_clause brackets a priority 1000 goal at
 the right of a left nested conjunction

---
 src/BipsPl/pretty_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/pretty_c.c b/src/BipsPl/pretty_c.c
index 9e8511a..5a061a8 100644
--- a/src/BipsPl/pretty_c.c
+++ b/src/BipsPl/pretty_c.c
@@ -314,7 +314,7 @@ Show_Body(StmInf *pstm, int level, int context, WamWord body_word)
 	Pl_Stream_Putc(' ', pstm);
       else
 	Start_Line(pstm, level, ' ');
-      Show_Body(pstm, level, RIGHT_AND, arg_word[1]);
+      Show_Body(pstm, level, (context == LEFT_AND) ? LEFT_AND : RIGHT_AND, arg_word[1]);
       return;
     }
 
-- 
2.43.0


From 9396caa397e22e7c45eb32390d2eb15e65acfdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 28/58] fix: current_op/3 can be resumed after the operator
 table was changed

---
 src/BipsPl/oper_c.c | 67 +++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/src/BipsPl/oper_c.c b/src/BipsPl/oper_c.c
index aeb9934..9e71861 100644
--- a/src/BipsPl/oper_c.c
+++ b/src/BipsPl/oper_c.c
@@ -190,13 +190,15 @@ Bool
 Pl_Current_Op_3(WamWord prec_word, WamWord specif_word, WamWord oper_word)
 {
   WamWord word, tag_mask;
+  WamWord keys_word;
+  WamWord *last;
   HashScan scan;
   PlLong prec;
   int atom_specif;
   OperInf *oper;
   int atom;
   int op_mask;
-  int i = 0;			/* init for the compiler */
+  PlLong i = 0;			/* init for the compiler */
 
   DEREF(oper_word, word, tag_mask);
   if (tag_mask != TAG_REF_MASK && tag_mask != TAG_ATM_MASK)
@@ -251,18 +253,30 @@ Pl_Current_Op_3(WamWord prec_word, WamWord specif_word, WamWord oper_word)
     }
   else
     {
-      oper = (OperInf *) Pl_HTBL_First(pl_oper_htbl, &scan);
-      if (oper == NULL)
+      /* the table can be modified between 2 solutions: collect the keys on the heap */
+      keys_word = NIL_WORD;
+      last = &keys_word;
+      for (oper = (OperInf *) Pl_HTBL_First(pl_oper_htbl, &scan); oper;
+	   oper = (OperInf *) Pl_HTBL_Next(&scan))
+	{
+	  *last = Tag_LST(H);
+	  Global_Push(Tag_INT(oper->a_t));
+	  last = H;
+	  Global_Push(NIL_WORD);
+	}
+
+      if (keys_word == NIL_WORD)
 	return FALSE;
 
       /* non deterministic case */
       A(0) = prec_word;
       A(1) = specif_word;
       A(2) = oper_word;
-      A(3) = (WamWord) scan.end_t;
-      A(4) = (WamWord) scan.cur_t;
-      A(5) = (WamWord) scan.cur_p;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 6);
+      A(3) = Cdr(UnTag_LST(keys_word));
+      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 4);
+
+      i = UnTag_INT(Car(UnTag_LST(keys_word)));
+      oper = Pl_Lookup_Oper(Atom_Of_Oper(i), Type_Of_Oper(i));
     }
 
   return Pl_Get_Integer(oper->prec, prec_word) &&
@@ -281,11 +295,11 @@ Bool
 Pl_Current_Op_Alt_0(void)
 {
   WamWord prec_word, specif_word, oper_word;
-  HashScan scan;
+  WamWord keys_word;
   OperInf *oper;
   int atom;
   int op_mask;
-  int i;
+  PlLong i;
 
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 0);
@@ -306,29 +320,34 @@ Pl_Current_Op_Alt_0(void)
       oper = Pl_Lookup_Oper(atom, i);
 
       Delete_Last_Choice_Point();
+
+      if (oper == NULL)		/* removed since the first solution */
+	return FALSE;
     }
   else
     {
-      scan.end_t = (HashNode *) AB(B, 3);
-      scan.cur_t = (HashNode *) AB(B, 4);
-      scan.cur_p = (HashNode)   AB(B, 5);
-
-      oper = (OperInf *) Pl_HTBL_Next(&scan);
-      if (oper == NULL)
+      oper = NULL;
+      for (keys_word = AB(B, 3); keys_word != NIL_WORD && oper == NULL;
+	   keys_word = Cdr(UnTag_LST(keys_word)))
 	{
-	  Delete_Last_Choice_Point();
-	  return FALSE;
+	  i = UnTag_INT(Car(UnTag_LST(keys_word)));
+	  oper = Pl_Lookup_Oper(Atom_Of_Oper(i), Type_Of_Oper(i)); /* NULL: removed since the first solution */
 	}
 
-
+      if (keys_word == NIL_WORD)
+	Delete_Last_Choice_Point();
+      else
+	{
 #if 0 /* the following data is unchanged */
-      AB(B, 0) = prec_word;
-      AB(B, 1) = specif_word;
-      AB(B, 2) = oper_word;
-      AB(B, 3) = (WamWord) scan.end_t;
+	  AB(B, 0) = prec_word;
+	  AB(B, 1) = specif_word;
+	  AB(B, 2) = oper_word;
 #endif
-      AB(B, 4) = (WamWord) scan.cur_t;
-      AB(B, 5) = (WamWord) scan.cur_p;
+	  AB(B, 3) = keys_word;
+	}
+
+      if (oper == NULL)
+	return FALSE;
     }
 
   return Pl_Get_Integer(oper->prec, prec_word) &&
-- 
2.43.0


From d988f1ff3738f4582c7214c1b11bc58d962f3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 29/58] fix: current_predicate/1 can be resumed after
 predicates were created or removed

---
 src/BipsPl/pred_c.c | 96 +++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/src/BipsPl/pred_c.c b/src/BipsPl/pred_c.c
index 7c17c55..bf55c86 100644
--- a/src/BipsPl/pred_c.c
+++ b/src/BipsPl/pred_c.c
@@ -77,10 +77,13 @@ Bool
 Pl_Current_Predicate_2(WamWord pred_indic_word, WamWord which_preds_word)
 {
   WamWord name_word, arity_word;
+  WamWord keys_word;
+  WamWord *last;
   HashScan scan;
   PredInf *pred;
   int func, arity;
   int func1, arity1;
+  PlLong f_n;
   int which_preds;		/* 0=user, 1=user+bips, 2=user+bips+system */
   Bool all;
 
@@ -106,33 +109,38 @@ Pl_Current_Predicate_2(WamWord pred_indic_word, WamWord which_preds_word)
 				/* here func or arity == -1 (or both) */
   all = (func == -1 && arity == -1);
 
-  pred = (PredInf *) Pl_HTBL_First(pl_pred_htbl, &scan);
-  for (;;)
+  /* the table can be modified between 2 solutions: collect the keys on the heap */
+  keys_word = NIL_WORD;
+  last = &keys_word;
+  for (pred = (PredInf *) Pl_HTBL_First(pl_pred_htbl, &scan); pred;
+       pred = (PredInf *) Pl_HTBL_Next(&scan))
     {
-      if (pred == NULL)
-	return FALSE;
-
       func1 = Functor_Of(pred->f_n);
       arity1 = Arity_Of(pred->f_n);
 
       if ((all || func == func1 || arity == arity1) &&
 	  Pred_Is_Ok(pred, func1, which_preds))
-	break;
-
-      pred = (PredInf *) Pl_HTBL_Next(&scan);
+	{
+	  *last = Tag_LST(H);
+	  Global_Push(Tag_INT(pred->f_n));
+	  last = H;
+	  Global_Push(NIL_WORD);
+	}
     }
 
+  if (keys_word == NIL_WORD)
+    return FALSE;
+
 				/* non deterministic case */
   A(0) = name_word;
   A(1) = arity_word;
-  A(2) = which_preds;
-  A(3) = (WamWord) scan.end_t;
-  A(4) = (WamWord) scan.cur_t;
-  A(5) = (WamWord) scan.cur_p;
-  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 6);
-
-  return Pl_Get_Atom(Functor_Of(pred->f_n), name_word) &&
-    Pl_Get_Integer(Arity_Of(pred->f_n), arity_word);
+  A(2) = Cdr(UnTag_LST(keys_word));
+  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 3);
+
+  f_n = UnTag_INT(Car(UnTag_LST(keys_word)));
+
+  return Pl_Get_Atom(Functor_Of(f_n), name_word) &&
+    Pl_Get_Integer(Arity_Of(f_n), arity_word);
   /*
   return Pl_Un_Atom_Check(Functor_Of(pred->f_n), name_word) &&
     Pl_Un_Integer_Check(Arity_Of(pred->f_n), arity_word);
@@ -150,58 +158,36 @@ Bool
 Pl_Current_Predicate_Alt_0(void)
 {
   WamWord name_word, arity_word;
-  HashScan scan;
+  WamWord keys_word;
   PredInf *pred;
-  int which_preds;
-  int func, arity;
-  int func1, arity1;
-  Bool all;
+  PlLong f_n = 0;		/* init for the compiler */
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 0);
 
   name_word = AB(B, 0);
   arity_word = AB(B, 1);
-  which_preds = (int) AB(B, 2);
-  scan.end_t = (HashNode *) AB(B, 3);
-  scan.cur_t = (HashNode *) AB(B, 4);
-  scan.cur_p = (HashNode)   AB(B, 5);
-
-  func = Tag_Mask_Of(name_word) == TAG_REF_MASK ? -1 : UnTag_ATM(name_word);
-  arity = Tag_Mask_Of(arity_word) == TAG_REF_MASK ? -1 : (int) UnTag_INT(arity_word);
-
-				/* here func or arity == -1 (or both) */
-  all = (func == -1 && arity == -1);
 
-  for (;;)
+  pred = NULL;
+  for (keys_word = AB(B, 2); keys_word != NIL_WORD && pred == NULL;
+       keys_word = Cdr(UnTag_LST(keys_word)))
     {
-      pred = (PredInf *) Pl_HTBL_Next(&scan);
-      if (pred == NULL)
-	{
-	  Delete_Last_Choice_Point();
-	  return FALSE;
-	}
-
-      func1 = Functor_Of(pred->f_n);
-      arity1 = Arity_Of(pred->f_n);
-
-      if ((all || func == func1 || arity == arity1) &&
-	  Pred_Is_Ok(pred, func1, which_preds))
-	break;
+      f_n = UnTag_INT(Car(UnTag_LST(keys_word)));
+      pred = Pl_Lookup_Pred(Functor_Of(f_n), Arity_Of(f_n)); /* NULL: removed since the first solution */
     }
 
-				/* non deterministic case */
-
+  if (keys_word == NIL_WORD)
+    Delete_Last_Choice_Point();
+  else				/* non deterministic case */
+    {
 #if 0				/* the following data is unchanged */
-  AB(B, 0) = name_word;
-  AB(B, 1) = arity_word;
-  AB(B, 2) = which_preds;
-  AB(B, 3) = (WamWord) scan.end_t;
+      AB(B, 0) = name_word;
+      AB(B, 1) = arity_word;
 #endif
-  AB(B, 4) = (WamWord) scan.cur_t;
-  AB(B, 5) = (WamWord) scan.cur_p;
+      AB(B, 2) = keys_word;
+    }
 
-  return Pl_Get_Atom(Functor_Of(pred->f_n), name_word) &&
-    Pl_Get_Integer(Arity_Of(pred->f_n), arity_word);
+  return pred && Pl_Get_Atom(Functor_Of(f_n), name_word) &&
+    Pl_Get_Integer(Arity_Of(f_n), arity_word);
 }
 
 
-- 
2.43.0


From 0c69a68124d54e7766964418b0cf9f939bc23ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 30/58] fix: a variable name longer than MAX_VAR_NAME_LENGTH is
 a syntax error instead of a buffer overflow

---
 src/BipsPl/parser_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index f7edd5a..2d733d9 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -744,6 +744,9 @@ Lookup_In_Dico_Var(char *name)
 
   if (i == pl_parse_nb_var)
     {
+      if (strlen(name) >= MAX_VAR_NAME_LENGTH)
+	Parse_Error("variable name too long");
+
       if (pl_parse_nb_var >= MAX_VAR_IN_TERM)
 	Parse_Error("too many variables in a term");
 
-- 
2.43.0


From 2875b3e800a0ef7b180c7fc598bc68647b68aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 31/58] fix: the length of an atom beyond 65535 characters was
 truncated

---
 src/EnginePl/atom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EnginePl/atom.h b/src/EnginePl/atom.h
index 9d8235c..e8a1ed1 100644
--- a/src/EnginePl/atom.h
+++ b/src/EnginePl/atom.h
@@ -96,7 +96,7 @@
 
 typedef struct			/* Atom properties                */
 {				/* ------------------------------ */
-  unsigned length:16;		/* its length (in characters)     */
+  unsigned length;		/* its length (in characters)     */
   unsigned op_mask:4;		/* operator defined for the atom  */
   unsigned type:2;		/* IDENTIFIER GRAPHIC SOLO OTHER  */
   unsigned needs_quote:1;	/* needs ' around it ?            */
-- 
2.43.0


From 8e571bf440bf88e0617128781bc34d9cfc17bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 32/58] fix: the end of file is not counted as a character of
 the current line

---
 src/BipsPl/stream_supp.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 9d062bf..c63195e 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1254,15 +1254,20 @@ TTY_Clearerr(void *unused)
 
 
 #define Update_Counters(pstm, c)		\
-  if (c != EOF)                   		\
-    pstm->char_count++;       			\
-  if (c == '\n')              			\
-    {                      			\
-      pstm->line_count++;   			\
-      pstm->line_pos = 0;     			\
-    }                      			\
-  else                     			\
-    pstm->line_pos++
+  do						\
+    {						\
+      if (c == EOF)				\
+	break;					\
+      pstm->char_count++;			\
+      if (c == '\n')				\
+	{					\
+	  pstm->line_count++;			\
+	  pstm->line_pos = 0;			\
+	}					\
+      else					\
+	pstm->line_pos++;			\
+    }						\
+  while (0)
 
 
 
@@ -1439,6 +1444,9 @@ Pl_Stream_Ungetc(int c, StmInf *pstm)
   PB_Push(pstm->pb_char, c);
   pstm->eof_reached = FALSE;
 
+  if (c == EOF)			/* not counted by Update_Counters */
+    return;
+
   if (pstm->char_count > 0)	/* test should be useless */
     pstm->char_count--;
 
-- 
2.43.0


From 82f5ba62dfa551eee239613396771ce808fcc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 33/58] fix: the position of a stream whose end has been peeked
 is its end

---
 src/BipsPl/stream_supp.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index c63195e..79ec536 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1684,6 +1684,32 @@ Pl_Stream_End_Of_Stream(StmInf *pstm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PB_NB_CHARS                                                             *
+ *                                                                         *
+ * Number of pushed back characters (a pushed back EOF is not a character).*
+ *-------------------------------------------------------------------------*/
+static int
+PB_Nb_Chars(StmInf *pstm)
+{
+  PbStk pb = pstm->pb_char;
+  PlLong c;
+  int n = 0;
+
+  pb.ptr = pb.buff + (pstm->pb_char.ptr - pstm->pb_char.buff);
+  while (!PB_Is_Empty(pb))
+    {
+      PB_Pop(pb, c);
+      if (c != EOF)
+	n++;
+    }
+
+  return n;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_STREAM_GET_POSITION                                                  *
  *                                                                         *
@@ -1699,7 +1725,7 @@ Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 	*offset = 0;
       else
 	{
-	  *offset = *offset - pstm->pb_char.nb_elems;
+	  *offset = *offset - PB_Nb_Chars(pstm);
 	  if (*offset < 0)
 	    *offset = 0;
 	}
-- 
2.43.0


From 5a45d1182943e2bb32f5817b1fc6a3d8c8aad341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 34/58] fix: seek/4 takes pushed back bytes into account and
 sets the character count to the new position

---
 src/BipsPl/stream_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 560224f..987e294 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1262,10 +1262,18 @@ Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word,
   offset = Pl_Rd_Integer_Check(offset_word);
   Pl_Check_For_Un_Integer(new_loc_word);
 
+  if (whence == SEEK_CUR)	/* relative to the position seen by the user */
+    {
+      Pl_Stream_Get_Position(pstm, p, p + 1, p + 2, p + 3);
+      offset += p[0];
+      whence = SEEK_SET;
+    }
+
   if (Pl_Stream_Set_Position(pstm, whence, offset, offset, 0, 0) != 0)
     return FALSE;
 
   Pl_Stream_Get_Position(pstm, &offset, p + 1, p + 2, p + 3);
+  pstm->char_count = offset;
 
   return Pl_Get_Integer(offset, new_loc_word);
 }
-- 
2.43.0


From b2b971ea2ed63884ed59ddd298e45ba8917102d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 35/58] fix: open/4 refusing reposition(true) leaves no stream
 behind

---
 src/BipsPl/stream_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 987e294..fcf6609 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -267,6 +267,7 @@ Pl_Open_3(WamWord source_sink_word, WamWord mode_word, WamWord stm_word)
       if (reposition && !prop.reposition)
 	{
 	  fclose(f);
+	  Pl_Delete_Stream(stm, FALSE);
 	  word = Pl_Put_Structure(pl_atom_reposition, 1);
 	  Pl_Unify_Atom(pl_atom_true);
 	  Pl_Err_Permission(pl_permission_operation_open,
-- 
2.43.0


From 308e6f1cf25347bfe16e8264a7d2f9dea4377ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 36/58] fix: stream enumerations can be resumed after streams,
 aliases or mirrors were removed

---
 src/BipsPl/stream.pl  |   1 +
 src/BipsPl/stream.wam |  73 ++++++++--------
 src/BipsPl/stream_c.c | 189 ++++++++++++++++++++++++------------------
 3 files changed, 147 insertions(+), 116 deletions(-)

diff --git a/src/BipsPl/stream.pl b/src/BipsPl/stream.pl
index 9f5ce96..8cf581b 100644
--- a/src/BipsPl/stream.pl
+++ b/src/BipsPl/stream.pl
@@ -515,6 +515,7 @@ stream_property(Stream, Property) :-
 	'$call_c_test'('Pl_Stream_Prop_Buffering_2'(Buffering, S)).
 
 '$stream_property1'(position(Position), S) :-
+	'$current_stream'(S),
 	'$stream_position'('$stream'(S), Position).
 
 '$stream_property1'(end_of_stream(EndOfStream), S) :-
diff --git a/src/BipsPl/stream.wam b/src/BipsPl/stream.wam
index 4246869..f151564 100644
--- a/src/BipsPl/stream.wam
+++ b/src/BipsPl/stream.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: stream.pl
-% hash: a9a6e8c713831ac76afa09bb08c8098235e0d05f  stream.pl
+% hash: b1a4984ea987d82add2c38726d191aa4948f3e6b  stream.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/stream.pl').
@@ -1218,11 +1218,16 @@ label(25),
     retry_me_else(27),
 
 label(26),
-    get_variable(x(2),1),
+    allocate(2),
     get_structure(position/1,0),
-    unify_variable(x(1)),
+    unify_variable(y(0)),
+    get_variable(y(1),1),
+    put_value(y(1),0),
+    call('$current_stream'/1),
     put_structure('$stream'/1,0),
-    unify_local_value(x(2)),
+    unify_local_value(y(1)),
+    put_value(y(0),1),
+    deallocate,
     execute('$stream_position'/2),
 
 label(27),
@@ -1235,19 +1240,19 @@ label(28),
     proceed]).
 
 
-predicate(at_end_of_stream/0,526,static,private,monofile,built_in,[
+predicate(at_end_of_stream/0,527,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[at_end_of_stream,0]),
     call_c('Pl_At_End_Of_Stream_0',[boolean],[]),
     proceed]).
 
 
-predicate(at_end_of_stream/1,530,static,private,monofile,built_in,[
+predicate(at_end_of_stream/1,531,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[at_end_of_stream,1]),
     call_c('Pl_At_End_Of_Stream_1',[boolean],[x(0)]),
     proceed]).
 
 
-predicate(current_alias/2,537,static,private,monofile,built_in,[
+predicate(current_alias/2,538,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[current_alias,2]),
@@ -1259,7 +1264,7 @@ predicate(current_alias/2,537,static,private,monofile,built_in,[
     execute('$current_alias/2_$aux1'/2)]).
 
 
-predicate('$current_alias/2_$aux1'/2,537,static,private,monofile,local,[
+predicate('$current_alias/2_$aux1'/2,538,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1281,17 +1286,17 @@ label(1),
     execute('$current_alias'/2)]).
 
 
-predicate('$current_alias'/2,549,static,private,monofile,built_in,[
+predicate('$current_alias'/2,550,static,private,monofile,built_in,[
     call_c('Pl_Current_Alias_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate('$current_alias_alt'/0,552,static,private,monofile,built_in,[
+predicate('$current_alias_alt'/0,553,static,private,monofile,built_in,[
     call_c('Pl_Current_Alias_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate(current_mirror/2,558,static,private,monofile,built_in,[
+predicate(current_mirror/2,559,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[current_mirror,2]),
@@ -1308,69 +1313,69 @@ predicate(current_mirror/2,558,static,private,monofile,built_in,[
     execute('$current_mirror'/2)]).
 
 
-predicate('$current_mirror'/2,568,static,private,monofile,built_in,[
+predicate('$current_mirror'/2,569,static,private,monofile,built_in,[
     call_c('Pl_Current_Mirror_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate('$current_mirror_alt'/0,571,static,private,monofile,built_in,[
+predicate('$current_mirror_alt'/0,572,static,private,monofile,built_in,[
     call_c('Pl_Current_Mirror_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate(stream_position/2,577,static,private,monofile,built_in,[
+predicate(stream_position/2,578,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[stream_position,2]),
     execute('$stream_position'/2)]).
 
 
-predicate('$stream_position'/2,582,static,private,monofile,built_in,[
+predicate('$stream_position'/2,583,static,private,monofile,built_in,[
     call_c('Pl_Stream_Position_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(set_stream_position/2,588,static,private,monofile,built_in,[
+predicate(set_stream_position/2,589,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[set_stream_position,2]),
     call_c('Pl_Set_Stream_Position_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(seek/4,595,static,private,monofile,built_in,[
+predicate(seek/4,596,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[seek,4]),
     call_c('Pl_Seek_4',[boolean],[x(0),x(1),x(2),x(3)]),
     proceed]).
 
 
-predicate(character_count/2,602,static,private,monofile,built_in,[
+predicate(character_count/2,603,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[character_count,2]),
     call_c('Pl_Character_Count_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(line_count/2,609,static,private,monofile,built_in,[
+predicate(line_count/2,610,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[line_count,2]),
     call_c('Pl_Line_Count_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(line_position/2,616,static,private,monofile,built_in,[
+predicate(line_position/2,617,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[line_position,2]),
     call_c('Pl_Line_Position_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(stream_line_column/3,623,static,private,monofile,built_in,[
+predicate(stream_line_column/3,624,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[stream_line_column,3]),
     call_c('Pl_Stream_Line_Column_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(set_stream_line_column/3,630,static,private,monofile,built_in,[
+predicate(set_stream_line_column/3,631,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[set_stream_line_column,3]),
     call_c('Pl_Set_Stream_Line_Column_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(open_input_atom_stream/2,643,static,private,monofile,built_in,[
+predicate(open_input_atom_stream/2,644,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_input_atom_stream,2]),
@@ -1387,7 +1392,7 @@ predicate(open_input_atom_stream/2,643,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(open_input_chars_stream/2,652,static,private,monofile,built_in,[
+predicate(open_input_chars_stream/2,653,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_input_chars_stream,2]),
@@ -1404,7 +1409,7 @@ predicate(open_input_chars_stream/2,652,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(open_input_codes_stream/2,661,static,private,monofile,built_in,[
+predicate(open_input_codes_stream/2,662,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_input_codes_stream,2]),
@@ -1421,7 +1426,7 @@ predicate(open_input_codes_stream/2,661,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_input_atom_stream/1,670,static,private,monofile,built_in,[
+predicate(close_input_atom_stream/1,671,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[close_input_atom_stream,1]),
@@ -1434,7 +1439,7 @@ predicate(close_input_atom_stream/1,670,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_input_chars_stream/1,678,static,private,monofile,built_in,[
+predicate(close_input_chars_stream/1,679,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[close_input_chars_stream,1]),
@@ -1447,7 +1452,7 @@ predicate(close_input_chars_stream/1,678,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_input_codes_stream/1,686,static,private,monofile,built_in,[
+predicate(close_input_codes_stream/1,687,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[close_input_codes_stream,1]),
@@ -1460,7 +1465,7 @@ predicate(close_input_codes_stream/1,686,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(open_output_atom_stream/1,694,static,private,monofile,built_in,[
+predicate(open_output_atom_stream/1,695,static,private,monofile,built_in,[
     allocate(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_output_atom_stream,1]),
     put_variable(y(0),1),
@@ -1474,7 +1479,7 @@ predicate(open_output_atom_stream/1,694,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(open_output_chars_stream/1,703,static,private,monofile,built_in,[
+predicate(open_output_chars_stream/1,704,static,private,monofile,built_in,[
     allocate(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_output_chars_stream,1]),
     put_variable(y(0),1),
@@ -1488,7 +1493,7 @@ predicate(open_output_chars_stream/1,703,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(open_output_codes_stream/1,712,static,private,monofile,built_in,[
+predicate(open_output_codes_stream/1,713,static,private,monofile,built_in,[
     allocate(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[open_output_codes_stream,1]),
     put_variable(y(0),1),
@@ -1502,7 +1507,7 @@ predicate(open_output_codes_stream/1,712,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_output_atom_stream/2,721,static,private,monofile,built_in,[
+predicate(close_output_atom_stream/2,722,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1517,7 +1522,7 @@ predicate(close_output_atom_stream/2,721,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_output_chars_stream/2,729,static,private,monofile,built_in,[
+predicate(close_output_chars_stream/2,730,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1532,7 +1537,7 @@ predicate(close_output_chars_stream/2,729,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(close_output_codes_stream/2,737,static,private,monofile,built_in,[
+predicate(close_output_codes_stream/2,738,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index fcf6609..d65205a 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -79,6 +79,11 @@
 
 
 
+#define Is_Open_Stream(stm)        ((stm) >= 0 && (stm) <= pl_stm_last_used && pl_stm_tbl[stm] != NULL)
+
+
+
+
 /*---------------------------------*
  * Type Definitions                *
  *---------------------------------*/
@@ -680,7 +685,9 @@ Pl_Stream_Prop_File_Name_2(WamWord file_name_word, WamWord stm_word)
 {
   int stm;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   return Pl_Un_Atom_Check(pl_stm_tbl[stm]->atom_file_name, file_name_word);
 }
@@ -698,7 +705,9 @@ Pl_Stream_Prop_Mode_2(WamWord mode_word, WamWord stm_word)
   int stm;
   int atom = 0;			/* init for the compiler */
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   switch (pl_stm_tbl[stm]->prop.mode)
     {
@@ -730,7 +739,9 @@ Pl_Stream_Prop_Input_1(WamWord stm_word)
 {
   int stm;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   return pl_stm_tbl[stm]->prop.input;
 }
@@ -747,7 +758,9 @@ Pl_Stream_Prop_Output_1(WamWord stm_word)
 {
   int stm;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   return pl_stm_tbl[stm]->prop.output;
 }
@@ -765,7 +778,9 @@ Pl_Stream_Prop_Type_2(WamWord type_word, WamWord stm_word)
   int stm;
   int atom;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   atom = (pl_stm_tbl[stm]->prop.text) ? pl_atom_text : pl_atom_binary;
 
@@ -785,7 +800,9 @@ Pl_Stream_Prop_File_No_2(WamWord file_no_word, WamWord stm_word)
   int stm;
   int fd;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
   fd = pl_stm_tbl[stm]->fileno;
 
   return fd >= 0 && Pl_Un_Integer_Check(fd, file_no_word);
@@ -804,7 +821,9 @@ Pl_Stream_Prop_Reposition_2(WamWord reposition_word, WamWord stm_word)
   int stm;
   int atom;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   atom = (pl_stm_tbl[stm]->prop.reposition) ? pl_atom_true : pl_atom_false;
 
@@ -824,7 +843,9 @@ Pl_Stream_Prop_Eof_Action_2(WamWord eof_action_word, WamWord stm_word)
   int stm;
   int atom = 0;			/* init for the compiler */
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   switch (pl_stm_tbl[stm]->prop.eof_action)
     {
@@ -857,7 +878,9 @@ Pl_Stream_Prop_Buffering_2(WamWord buffering_word, WamWord stm_word)
   int stm;
   int atom = 0;			/* init for the compiler */
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
 #ifndef NO_USE_LINEDIT		/* if GUI: ask it for buffering */
   if (pl_stm_tbl[stm]->file == stdout && pl_le_hook_get_line_buffering)
@@ -900,7 +923,9 @@ Pl_Stream_Prop_End_Of_Stream_2(WamWord end_of_stream_word, WamWord stm_word)
   int stm;
   int atom = 0;			/* init for the compiler */
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   switch (Pl_Stream_End_Of_Stream(pl_stm_tbl[stm]))
     {
@@ -957,17 +982,22 @@ Pl_At_End_Of_Stream_0(void)
 /*-------------------------------------------------------------------------*
  * PL_CURRENT_ALIAS_2                                                      *
  *                                                                         *
+ * The aliases can be modified between 2 solutions: they are collected on  *
+ * the heap.                                                               *
  *-------------------------------------------------------------------------*/
 Bool
 Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
 {
   WamWord word, tag_mask;
+  WamWord aliases_word = NIL_WORD;
+  WamWord *last = &aliases_word;
   int stm;
   HashScan scan;
   AliasInf *alias;
-  AliasInf *save_alias;
 
-  stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
   DEREF(alias_word, word, tag_mask);
   if (tag_mask != TAG_REF_MASK)
@@ -976,34 +1006,28 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
   for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
        alias = (AliasInf *) Pl_HTBL_Next(&scan))
     if (alias->stm == stm)
-      break;
+      {
+	*last = Tag_LST(H);
+	Global_Push(Tag_ATM(alias->atom));
+	last = H;
+	Global_Push(NIL_WORD);
+      }
 
-  if (alias == NULL)
+  if (aliases_word == NIL_WORD)
     return FALSE;
 
-  save_alias = alias;
-
-  for (;;)
-    {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
-    }
-
+  word = Car(UnTag_LST(aliases_word));
+  aliases_word = Cdr(UnTag_LST(aliases_word));
 
-  if (alias)			/* non deterministic case */
+  if (aliases_word != NIL_WORD)	/* non deterministic case */
     {
       A(0) = stm;
       A(1) = alias_word;
-      A(2) = (WamWord) scan.end_t;
-      A(3) = (WamWord) scan.cur_t;
-      A(4) = (WamWord) scan.cur_p;
-      A(5) = (WamWord) alias;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 6);
+      A(2) = aliases_word;
+      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 3);
     }
 
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+  return Pl_Get_Atom(UnTag_ATM(word), alias_word);
 }
 
 
@@ -1017,48 +1041,29 @@ Bool
 Pl_Current_Alias_Alt_0(void)
 {
   int stm;
-  WamWord alias_word;
-  HashScan scan;
-  AliasInf *alias;
-  AliasInf *save_alias;
-
+  WamWord word;
+  WamWord alias_word, aliases_word;
+  int atom = -1;
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 0);
 
   stm = (int) AB(B, 0);
   alias_word = AB(B, 1);
-  scan.end_t = (HashNode *) AB(B, 2);
-  scan.cur_t = (HashNode *) AB(B, 3);
-  scan.cur_p = (HashNode)   AB(B, 4);
-  alias      = (AliasInf *) AB(B, 5);
-
 
-  save_alias = alias;
-
-  for (;;)
+  for (aliases_word = AB(B, 2); aliases_word != NIL_WORD && atom < 0;
+       aliases_word = Cdr(UnTag_LST(aliases_word)))
     {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
+      word = Car(UnTag_LST(aliases_word));
+      if (Pl_Find_Stream_By_Alias(UnTag_ATM(word)) == stm) /* else removed since the first solution */
+	atom = UnTag_ATM(word);
     }
 
-
-  if (alias)			/* non deterministic case */
-    {
-#if 0 /* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = alias_word;
-      AB(B, 2) = (WamWord) scan.end_t;
-#endif
-      AB(B, 3) = (WamWord) scan.cur_t;
-      AB(B, 4) = (WamWord) scan.cur_p;
-      AB(B, 5) = (WamWord) alias;
-    }
+  if (aliases_word != NIL_WORD)	/* non deterministic case */
+    AB(B, 2) = aliases_word;
   else
     Delete_Last_Choice_Point();
 
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+  return atom >= 0 && Pl_Get_Atom(atom, alias_word);
 }
 
 
@@ -1067,29 +1072,48 @@ Pl_Current_Alias_Alt_0(void)
 /*-------------------------------------------------------------------------*
  * PL_CURRENT_MIRROR_2                                                     *
  *                                                                         *
+ * The mirrors can be modified between 2 solutions: they are collected on  *
+ * the heap.                                                               *
  *-------------------------------------------------------------------------*/
 Bool
 Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 {
-  int stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
-  StmInf *pstm = pl_stm_tbl[stm];
-  StmLst *m = pstm->mirror;
+  WamWord word;
+  WamWord mirrors_word = NIL_WORD;
+  WamWord *last = &mirrors_word;
+  int stm;
+  StmLst *m;
+
+  stm = Pl_Rd_C_Int_Check(stm_word);
+  if (!Is_Open_Stream(stm))	/* closed by the caller between 2 solutions */
+    return FALSE;
 
 				/* From here, the code also works with     */
 				/* m = m_pstm->mirror_of. Could be used    */
 				/* if m_stm_word is given and not stm_word */
-  if (m == NULL)
+  for (m = pl_stm_tbl[stm]->mirror; m; m = m->next)
+    {
+      *last = Tag_LST(H);
+      Global_Push(Tag_INT(m->stm));
+      last = H;
+      Global_Push(NIL_WORD);
+    }
+
+  if (mirrors_word == NIL_WORD)
     return FALSE;
 
-  if (m->next != NULL) /* non deterministic case */
+  word = Car(UnTag_LST(mirrors_word));
+  mirrors_word = Cdr(UnTag_LST(mirrors_word));
+
+  if (mirrors_word != NIL_WORD)	/* non deterministic case */
     {
-      A(0) = stm;		/* useless in fact */
+      A(0) = stm;
       A(1) = m_stm_word;
-      A(2) = (WamWord) m->next;
+      A(2) = mirrors_word;
       Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 3);
     }
 
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return Pl_Get_Integer(UnTag_INT(word), m_stm_word);
 }
 
 
@@ -1102,28 +1126,29 @@ Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 Bool
 Pl_Current_Mirror_Alt_0(void)
 {
-  /*  int stm; */
-  WamWord m_stm_word;
+  int stm;
+  int m_stm = -1;
+  WamWord m_stm_word, mirrors_word;
   StmLst *m;
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 0);
 
-  /*  stm = AB(B, 0); */
+  stm = (int) AB(B, 0);
   m_stm_word = AB(B, 1);
-  m = (StmLst *) AB(B, 2);
 
-  if (m->next)			/* non deterministic case */
-    {
-#if 0				/* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = m_stm_word;
-#endif
-      AB(B, 2) = (WamWord) m->next;
-    }
+  for (mirrors_word = AB(B, 2); mirrors_word != NIL_WORD && m_stm < 0;
+       mirrors_word = Cdr(UnTag_LST(mirrors_word)))
+    if (Is_Open_Stream(stm))
+      for (m = pl_stm_tbl[stm]->mirror; m; m = m->next)
+	if (m->stm == UnTag_INT(Car(UnTag_LST(mirrors_word)))) /* else removed since the first solution */
+	  m_stm = m->stm;
+
+  if (mirrors_word != NIL_WORD)	/* non deterministic case */
+    AB(B, 2) = mirrors_word;
   else
     Delete_Last_Choice_Point();
 
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return m_stm >= 0 && Pl_Get_Integer(m_stm, m_stm_word);
 }
 
 
-- 
2.43.0


From f9793a19d23e0752bdec7180a4f797db0d18f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 37/58] fix: a set_stream_line_column/3 that fails keeps the
 line positions needed to push newlines back

---
 src/BipsPl/stream_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 79ec536..b630602 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1799,6 +1799,7 @@ Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
   Bool save_eof_reached;
   PlLong save_char_count, save_line_count, save_line_pos;
   int save_char_nb_elems;
+  PbStk save_pb_line_pos;
 
 
   offset = CALL_TELL(pstm);
@@ -1815,6 +1816,7 @@ Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
   save_line_count = pstm->line_count;
   save_line_pos = pstm->line_pos;
   save_char_nb_elems = pstm->pb_char.nb_elems;
+  save_pb_line_pos = pstm->pb_line_pos;
 
 
   pstm->char_count = 0;
@@ -1857,6 +1859,7 @@ err:
   pstm->line_count = save_line_count;
   pstm->line_pos = save_line_pos;
   pstm->pb_char.nb_elems = save_char_nb_elems;
+  pstm->pb_line_pos = save_pb_line_pos;
 
   x = CALL_SEEK(pstm, (long) offset, SEEK_SET);
   if (x != 0)
-- 
2.43.0


From 7e4a30af81600a89ce5cf7a7bc83f5b135a2ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 38/58] fix: the DEC-10 name of a stream is found after stale
 entries of the stream table

---
 src/BipsPl/dec10io.pl  | 6 +++---
 src/BipsPl/dec10io.wam | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/dec10io.pl b/src/BipsPl/dec10io.pl
index 8628fba..572d46b 100644
--- a/src/BipsPl/dec10io.pl
+++ b/src/BipsPl/dec10io.pl
@@ -51,14 +51,14 @@
 '$find_existing_stream'(user_output, '$stream'(1), output).
 
 '$find_existing_stream'(File, Stream, Mode) :-
-	clause('$dec10_stream'(File, Stream, Mode), _), !,
+	clause('$dec10_stream'(File, Stream, Mode), _),
 	(   current_stream(Stream),                     % test if it still exists
 	    stream_property(Stream, file_name(File)),   % (with correct name)
 	    stream_property(Stream, Mode) ->            % (and correct mode)
 	    true
 	;   retract('$dec10_stream'(File, Stream, Mode)),       % no, retract
-	    fail
-	).
+	    fail                                                % and try next
+	), !.
 
 '$find_existing_stream'(Stream, Stream, Mode) :-
 	Stream = '$stream'(S),                       % test if it is a stream
diff --git a/src/BipsPl/dec10io.wam b/src/BipsPl/dec10io.wam
index 23120f0..cd0d99b 100644
--- a/src/BipsPl/dec10io.wam
+++ b/src/BipsPl/dec10io.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: dec10io.pl
-% hash: 13d3db2d3c6651c8214114f367c706a25fac9f2c  dec10io.pl
+% hash: abc524c3ea1748d5b7cbc27d22aeb8244e64ccac  dec10io.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/dec10io.pl').
@@ -76,12 +76,13 @@ label(11),
     unify_local_value(y(2)),
     put_void(1),
     call(clause/2),
-    cut(y(3)),
     put_value(y(1),0),
     put_value(y(0),1),
     put_value(y(2),2),
+    call('$$find_existing_stream/3_$aux1'/3),
+    cut(y(3)),
     deallocate,
-    execute('$$find_existing_stream/3_$aux1'/3),
+    proceed,
 
 label(12),
     trust_me_else_fail,
-- 
2.43.0


From 40d905774f2b098d2bc38f8c05f7c3d5a3abae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 39/58] fix: get/1 gives -1 at the end of the file

---
 src/BipsPl/dec10io.pl  |  2 +-
 src/BipsPl/dec10io.wam | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/dec10io.pl b/src/BipsPl/dec10io.pl
index 572d46b..708093c 100644
--- a/src/BipsPl/dec10io.pl
+++ b/src/BipsPl/dec10io.pl
@@ -162,7 +162,7 @@ get(X) :-
 	set_bip_name(get, 1),
 	'$check_in_character_code'(X),
 	'$call_c_test'('Pl_Get_Code_1'(X0)),
-	(   X0 =< 32 ->
+	(   X0 =< 32, X0 >= 0 ->                        % -1 is the end of file
 	    get(X)
 	;   X = X0
 	).
diff --git a/src/BipsPl/dec10io.wam b/src/BipsPl/dec10io.wam
index cd0d99b..5855bfd 100644
--- a/src/BipsPl/dec10io.wam
+++ b/src/BipsPl/dec10io.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: dec10io.pl
-% hash: abc524c3ea1748d5b7cbc27d22aeb8244e64ccac  dec10io.pl
+% hash: 89027331f636e18c6f8f21237625623e3063de44  dec10io.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/dec10io.pl').
@@ -389,9 +389,13 @@ predicate('$get/1_$aux1'/2,161,static,private,monofile,local,[
     get_current_choice(x(2)),
     try_me_else(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[=<,2]),
+    math_load_value(x(0),3),
+    put_integer(32,4),
+    call_c('Pl_Blt_Lte',[fast_call,boolean],[x(3),x(4)]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[>=,2]),
     math_load_value(x(0),0),
-    put_integer(32,3),
-    call_c('Pl_Blt_Lte',[fast_call,boolean],[x(0),x(3)]),
+    put_integer(0,3),
+    call_c('Pl_Blt_Gte',[fast_call,boolean],[x(0),x(3)]),
     cut(x(2)),
     put_value(x(1),0),
     execute(get/1),
-- 
2.43.0


From 6104bd0e098a65578a796375c65b33b5a1ea98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 40/58] fix: the number of a format/2,3 control sequence has no
 sign and no leading space (~+5 is ~+ followed by 5)

---
 src/BipsPl/format_c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 9732806..89da38f 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -39,6 +39,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <ctype.h>
 #include <stdlib.h>
 
 #include "engine_pl.h"
@@ -220,9 +221,11 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	      n = p[1];
 	      format += 2;
 	    }
+	  else if (!isdigit((unsigned char) *p)) /* no sign nor space (e.g. ~+5 is ~+ followed by 5) */
+	    n = 0;
 	  else
 	    {
-	      n = (PlLong) Str_To_PlLong(format, &format, 10); /* 0 is returned if no conversion is possible */
+	      n = (PlLong) Str_To_PlLong(format, &format, 10);
 
 	      /* In case of overflow strtol() returns LONG_MIN or LONG_MAX and
 	       * sets errno to ERANGE (NB: not on windows). We dont test it because 
-- 
2.43.0


From 43722647e606e598b49edc870ac9e4bff47cd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 41/58] fix: format/2,3 lost the spaces before a column
 boundary when a newline followed ~t

---
 src/BipsPl/format_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 89da38f..73e83fc 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -529,6 +529,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0); 
 	      nb_pad = 0;
 	      tab_stop = 0;
+	      pstm = pstm_orig;
 	    }
 		
 	  /* curr_pos = nb chars written: on original pstm + on the str stream stm_pad */
-- 
2.43.0


From f62e034be60f2d57e9f6d3a5883c5c1b47fc27b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 42/58] fix: ~N of format/2,3 ignored the text of the line
 before ~t

---
 src/BipsPl/format_c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 73e83fc..44b51ca 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -413,7 +413,10 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  break;
 
 	case 'N': /* NB: the 'n' is ignored since after the the first \n we are at the begin of line */
-	  if (pstm->line_pos > 0)
+	  x = pstm->line_pos;
+	  if (nb_pad > 0 && last_line_count == pstm->line_count) /* same line as the text before the first ~t */
+	    x += pstm_orig->line_pos;
+	  if (x > 0)
 	    Pl_Stream_Putc('\n', pstm);
 	  break;
 
-- 
2.43.0


From 84f6437088904e517c4e0bd3be9c1e7a4c308830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 43/58] fix: more than 1024 characters between ~t and the next
 column boundary of format/2,3 used freed memory

---
 src/BipsPl/format_c.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 44b51ca..98a337c 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -59,7 +59,7 @@
 #define MAX_PAD 1024		/* max consecutive ~t */
 
 typedef struct {
-  char *start_ptr;		/* ptr to buff of the stm_pad str stream */
+  PlLong start;			/* offset in the buff of the stm_pad str stream (which can be reallocated) */
   char fill_char;		/* char used to fill padding */
 }
 PadInf;
@@ -508,7 +508,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	   * (initially pstm_orig) to a string stream (str stream) stm_pad which is created 
 	   * at the first ~t and remains alive until the end of the function.
 	   * At each ~t a new entry is added entry to the pad[] array with 2 data: 
-	   * - the start_ptr in the str stream (where chars, after this ~t, are written)
+	   * - the start offset in the str stream (where chars, after this ~t, are written)
 	   * - the padding character.
 	   *
 	   * When ~| or ~+ is encountered, the pad[] array is flushed by emitting the padding,
@@ -587,7 +587,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	      Pl_Err_Resource(Pl_Create_Atom("too many consecutive ~t in format"));
 	    }
 	      
-	  pad[nb_pad].start_ptr = Pl_Get_Ptr_Str_Stream(stm_pad);
+	  pad[nb_pad].start = Pl_Get_Ptr_Str_Stream(stm_pad) - Pl_Get_Buffer_Str_Stream(stm_pad);
 	  pad[nb_pad].fill_char = (char) n;
 	  nb_pad++;
 	  break;
@@ -618,7 +618,7 @@ Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[],
 	      PlLong free_space)
 {
   PlLong spc, rem, n;
-  char *p, *end;
+  char *buff, *p, *end;
   int i;
 
   if (nb_pad == 0)
@@ -630,7 +630,7 @@ Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[],
   spc = free_space / nb_pad;
   rem = free_space % nb_pad;
   
-  p = Pl_Get_Buffer_Str_Stream(stm_pad);
+  p = buff = Pl_Get_Buffer_Str_Stream(stm_pad);
   for(i = 0; i < nb_pad; i++)
     {
 #if 0				/* insert additional spaces both left and right (balanced) */
@@ -643,7 +643,7 @@ Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[],
       while(--n >= 0)
 	Pl_Stream_Putc(pad[i].fill_char, pstm);
 
-      end = (i < nb_pad - 1) ? pad[i + 1].start_ptr : Pl_Get_Ptr_Str_Stream(stm_pad);
+      end = (i < nb_pad - 1) ? buff + pad[i + 1].start : Pl_Get_Ptr_Str_Stream(stm_pad);
       while(p < end)
 	Pl_Stream_Putc(*p++, pstm);
     }
-- 
2.43.0


From c57b3c12cec5e3820d17e3c35a52f4fa008b151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 44/58] fix: format/2,3 read beyond a control string that ends
 inside a ~% sequence

---
 src/BipsPl/format_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 98a337c..5a3a9cd 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -450,7 +450,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  *p = '\0';
 	  format--;		/* sync for break */
 	  
-	  if (strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
+	  if (fmt_char == '\0' || strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
 	    {
 	    c_printf_error:
 	      CLEAN;
-- 
2.43.0


From 2357fbc3765833370ed73b48284d28dc5c8409a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 45/58] fix: text of more than 65534 characters formatted by
 format/2,3 overflowed a buffer

---
 src/BipsPl/stream_supp.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index b630602..354a6eb 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1605,15 +1605,26 @@ int
 Pl_Stream_Printf(StmInf *pstm, char *format, ...)
 {
   va_list arg_ptr;
-  static char str[BIG_BUFFER];
+  static char buff[BIG_BUFFER];
+  char *str = buff;
   char *p;
-  int c;
+  int c, lg;
 
 
   va_start(arg_ptr, format);
-  vsprintf(str, format, arg_ptr);
+  lg = vsnprintf(str, BIG_BUFFER, format, arg_ptr);
   va_end(arg_ptr);
 
+  if (lg >= BIG_BUFFER)		/* too long for the static buffer */
+    {
+      str = (char *) Malloc(lg + 1);
+      va_start(arg_ptr, format);
+      vsnprintf(str, lg + 1, format, arg_ptr);
+      va_end(arg_ptr);
+    }
+  else if (lg < 0)		/* output error */
+    return lg;
+
   for (p = str; *p; p++)
     {
       c = *p;
@@ -1621,7 +1632,11 @@ Pl_Stream_Printf(StmInf *pstm, char *format, ...)
       Update_Counters(pstm, c);
     }
 
-  return (int) (p - str);
+  lg = (int) (p - str);
+  if (str != buff)
+    Free(str);
+
+  return lg;
 }
 
 
-- 
2.43.0


From 35ead71a35de67a2eccd28dc52b789a42b11c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 46/58] fix: the Prolog flag unix was named 1 (its name was
 expanded by the C preprocessor)

---
 src/BipsPl/flag_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/flag_c.c b/src/BipsPl/flag_c.c
index 7fc8c71..636b313 100644
--- a/src/BipsPl/flag_c.c
+++ b/src/BipsPl/flag_c.c
@@ -140,6 +140,7 @@ PL_INITIALIZER(Flag_Initializer)
 #if defined(__unix__) || defined(__CYGWIN__) || defined(unix)
   is_unix = TRUE;
 #endif
+#undef unix			/* else the flag unix below is expanded (named 1) */
 
   atom_on = Pl_Create_Atom("on");
   atom_off = Pl_Create_Atom("off");
-- 
2.43.0


From 3361ef529ed8e9f792e89b367bd796b68fd67ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 47/58] fix: consulting under active character conversions
 converted the generated include file too

---
 src/BipsPl/consult.pl  |   6 ++-
 src/BipsPl/consult.wam | 109 +++++++++++++++++++++--------------------
 2 files changed, 60 insertions(+), 55 deletions(-)

diff --git a/src/BipsPl/consult.pl b/src/BipsPl/consult.pl
index 5a7c42c..60727ba 100644
--- a/src/BipsPl/consult.pl
+++ b/src/BipsPl/consult.pl
@@ -211,7 +211,7 @@ write_default_include_file(IncludeFile) :-
 	;
 	    true
 	),
-	LFlags = [char_conversion, double_quotes, back_quotes, singleton_warning,
+	LFlags = [double_quotes, back_quotes, singleton_warning,
 		  suspicious_warning, multifile_warning, strict_iso, show_information],
 	(   member(Flag, LFlags),
 	    current_prolog_flag(Flag, FlagValue),
@@ -236,7 +236,9 @@ write_default_include_file(IncludeFile) :-
 	    true
 	),
 		%%% end of term_expansion/2 inclusion %%%
-	format(S, ':- compiler_mode(default).~n', []),
+		% activate the conversions at the very end (they would apply to the rest of this file)
+	current_prolog_flag(char_conversion, CharConv),
+	format(S, ':- initialization((g_assign(compiler_mode, default), set_prolog_flag(char_conversion, ~q))).~n', [CharConv]),
 	close(S),
 	fail.			% GC
 
diff --git a/src/BipsPl/consult.wam b/src/BipsPl/consult.wam
index c161d94..942a266 100644
--- a/src/BipsPl/consult.wam
+++ b/src/BipsPl/consult.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: consult.pl
-% hash: 60672638177dc2f83e4449ffa409fe8cd03d948d  consult.pl
+% hash: bb6646f0e41398642745ad1a3309df3b68be7298  consult.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/consult.pl').
@@ -460,7 +460,7 @@ label(1),
 
 predicate(write_default_include_file/1,202,static,private,monofile,built_in,[
     try_me_else(1),
-    allocate(3),
+    allocate(4),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[write_default_include_file,1]),
     put_variable(y(0),1),
     call('$prolog_file_name'/2),
@@ -480,8 +480,6 @@ predicate(write_default_include_file/1,202,static,private,monofile,built_in,[
     put_value(y(1),0),
     call('$write_default_include_file/1_$aux1'/1),
     put_list(0),
-    unify_atom(char_conversion),
-    unify_list,
     unify_atom(double_quotes),
     unify_list,
     unify_atom(back_quotes),
@@ -514,9 +512,14 @@ predicate(write_default_include_file/1,202,static,private,monofile,built_in,[
     call(format/3),
     put_value(y(1),0),
     call('$write_default_include_file/1_$aux4'/1),
+    put_atom(char_conversion,0),
+    put_variable(y(3),1),
+    call(current_prolog_flag/2),
     put_value(y(1),0),
-    put_atom(':- compiler_mode(default).~n',1),
-    put_nil(2),
+    put_atom(':- initialization((g_assign(compiler_mode, default), set_prolog_flag(char_conversion, ~q))).~n',1),
+    put_list(2),
+    unify_local_value(y(3)),
+    unify_nil,
     call(format/3),
     put_value(y(1),0),
     call(close/1),
@@ -626,7 +629,7 @@ label(1),
     proceed]).
 
 
-predicate('$write_include_goal'/2,246,static,private,monofile,built_in,[
+predicate('$write_include_goal'/2,248,static,private,monofile,built_in,[
     put_list(2),
     unify_local_value(x(1)),
     unify_nil,
@@ -634,7 +637,7 @@ predicate('$write_include_goal'/2,246,static,private,monofile,built_in,[
     execute(format/3)]).
 
 
-predicate('$consult2'/2,252,static,private,monofile,built_in,[
+predicate('$consult2'/2,254,static,private,monofile,built_in,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -680,7 +683,7 @@ label(7),
     proceed]).
 
 
-predicate('$list_to_atom'/2,264,static,private,monofile,built_in,[
+predicate('$list_to_atom'/2,266,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -693,7 +696,7 @@ predicate('$list_to_atom'/2,264,static,private,monofile,built_in,[
     execute('$$list_to_atom/2_$aux1'/3)]).
 
 
-predicate('$$list_to_atom/2_$aux1'/3,264,static,private,monofile,local,[
+predicate('$$list_to_atom/2_$aux1'/3,266,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -715,7 +718,7 @@ label(1),
     execute(close_output_atom_stream/2)]).
 
 
-predicate('$consult_assert'/1,280,static,private,monofile,built_in,[
+predicate('$consult_assert'/1,282,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     put_structure('$consult_assert'/2,0),
@@ -727,7 +730,7 @@ predicate('$consult_assert'/1,280,static,private,monofile,built_in,[
     execute('$consult_assert1'/2)]).
 
 
-predicate('$consult_assert1'/2,285,static,private,monofile,built_in,[
+predicate('$consult_assert1'/2,287,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(7),
@@ -761,7 +764,7 @@ predicate('$consult_assert1'/2,285,static,private,monofile,built_in,[
     execute(close/1)]).
 
 
-predicate('$open_pl_file'/4,298,static,private,monofile,built_in,[
+predicate('$open_pl_file'/4,300,static,private,monofile,built_in,[
     try_me_else(1),
     get_atom(user,0),
     get_atom(user,2),
@@ -819,7 +822,7 @@ label(3),
     execute('$throw'/4)]).
 
 
-predicate('$try_parent_dir'/4,318,static,private,monofile,built_in,[
+predicate('$try_parent_dir'/4,320,static,private,monofile,built_in,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -870,7 +873,7 @@ label(5),
     execute('$try_parent_dir'/4)]).
 
 
-predicate('$treat_term'/2,331,static,private,monofile,built_in,[
+predicate('$treat_term'/2,333,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(5),
@@ -917,7 +920,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate('$$treat_term/2_$aux2'/2,337,static,private,monofile,local,[
+predicate('$$treat_term/2_$aux2'/2,339,static,private,monofile,local,[
     try_me_else(1),
     get_variable(x(2),0),
     put_structure('$consult_assert'/2,0),
@@ -943,7 +946,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate('$$treat_term/2_$aux1'/2,337,static,private,monofile,local,[
+predicate('$$treat_term/2_$aux1'/2,339,static,private,monofile,local,[
     try_me_else(1),
     get_structure((:-)/2,0),
     unify_local_value(x(1)),
@@ -956,7 +959,7 @@ label(1),
     proceed]).
 
 
-predicate('$treat_directive'/2,350,static,private,monofile,built_in,[
+predicate('$treat_directive'/2,352,static,private,monofile,built_in,[
     try_me_else(12),
     switch_on_term(2,fail,fail,fail,1),
 
@@ -1018,7 +1021,7 @@ label(12),
     execute(format/2)]).
 
 
-predicate('$load_file'/1,370,static,private,monofile,built_in,[
+predicate('$load_file'/1,372,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     allocate(4),
@@ -1045,7 +1048,7 @@ predicate('$load_file'/1,370,static,private,monofile,built_in,[
     execute(close/1)]).
 
 
-predicate('$$load_file/1_$aux1'/3,370,static,private,monofile,local,[
+predicate('$$load_file/1_$aux1'/3,372,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1062,7 +1065,7 @@ label(1),
     fail]).
 
 
-predicate('$load_pred'/2,386,static,private,monofile,built_in,[
+predicate('$load_pred'/2,388,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(2,fail,fail,fail,1),
@@ -1157,7 +1160,7 @@ label(7),
     proceed]).
 
 
-predicate('$$load_pred/2_$aux3'/4,399,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux3'/4,401,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1181,7 +1184,7 @@ label(1),
     fail]).
 
 
-predicate('$$load_pred/2_$aux2'/6,399,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux2'/6,401,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1204,7 +1207,7 @@ label(1),
     execute('$check_owner_files'/3)]).
 
 
-predicate('$$load_pred/2_$aux1'/4,389,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux1'/4,391,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1241,7 +1244,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$load_directive_exception'/3,425,static,private,monofile,built_in,[
+predicate('$load_directive_exception'/3,427,static,private,monofile,built_in,[
     get_variable(x(3),2),
     put_atom('$pl_file',2),
     put_variable(x(4),5),
@@ -1260,7 +1263,7 @@ predicate('$load_directive_exception'/3,425,static,private,monofile,built_in,[
     execute(format/3)]).
 
 
-predicate('$check_pred_type'/4,432,static,private,monofile,built_in,[
+predicate('$check_pred_type'/4,434,static,private,monofile,built_in,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1287,7 +1290,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_pred_type/4_$aux1'/4,432,static,private,monofile,local,[
+predicate('$$check_pred_type/4_$aux1'/4,434,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1316,7 +1319,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$check_owner_files'/3,445,static,private,monofile,built_in,[
+predicate('$check_owner_files'/3,447,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1350,7 +1353,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_owner_files/3_$aux1'/6,445,static,private,monofile,local,[
+predicate('$$check_owner_files/3_$aux1'/6,447,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1388,7 +1391,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate(load/1,460,static,private,monofile,built_in,[
+predicate(load/1,462,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     allocate(2),
@@ -1403,7 +1406,7 @@ predicate(load/1,460,static,private,monofile,built_in,[
     execute('$load/1_$aux1'/1)]).
 
 
-predicate('$load/1_$aux1'/1,460,static,private,monofile,local,[
+predicate('$load/1_$aux1'/1,462,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1418,7 +1421,7 @@ label(1),
     execute('$load1'/1)]).
 
 
-predicate('$load1'/1,470,static,private,monofile,built_in,[
+predicate('$load1'/1,472,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1442,7 +1445,7 @@ label(4),
     execute('$load1'/1)]).
 
 
-predicate('$load2'/1,477,static,private,monofile,built_in,[
+predicate('$load2'/1,479,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     put_value(y(0),0),
@@ -1465,7 +1468,7 @@ predicate('$load2'/1,477,static,private,monofile,built_in,[
     execute('$load_file'/1)]).
 
 
-predicate('$$load2/1_$aux2'/2,477,static,private,monofile,local,[
+predicate('$$load2/1_$aux2'/2,479,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1483,7 +1486,7 @@ label(1),
     execute('$pl_err_existence'/2)]).
 
 
-predicate('$$load2/1_$aux1'/3,477,static,private,monofile,local,[
+predicate('$$load2/1_$aux1'/3,479,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1499,22 +1502,22 @@ label(1),
     proceed]).
 
 
-predicate('$bc_start_pred'/8,495,static,private,monofile,built_in,[
+predicate('$bc_start_pred'/8,497,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Pred_8',[],[x(0),x(1),x(2),x(3),x(4),x(5),x(6),x(7)]),
     proceed]).
 
 
-predicate('$bc_start_emit'/0,499,static,private,monofile,built_in,[
+predicate('$bc_start_emit'/0,501,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_stop_emit'/0,502,static,private,monofile,built_in,[
+predicate('$bc_stop_emit'/0,504,static,private,monofile,built_in,[
     call_c('Pl_BC_Stop_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_emit'/1,505,static,private,monofile,built_in,[
+predicate('$bc_emit'/1,507,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1538,24 +1541,24 @@ label(4),
     execute('$bc_emit'/1)]).
 
 
-predicate('$bc_emit_inst'/1,511,static,private,monofile,built_in,[
+predicate('$bc_emit_inst'/1,513,static,private,monofile,built_in,[
     call_c('Pl_BC_Emit_Inst_1',[],[x(0)]),
     proceed]).
 
 
-predicate('$bc_emulate_cont'/0,517,static,private,monofile,built_in,[
+predicate('$bc_emulate_cont'/0,519,static,private,monofile,built_in,[
     call_c('Pl_BC_Emulate_Cont_0',[jump],[]),
     proceed]).
 
 
-predicate('$add_clause_term'/2,523,static,private,monofile,built_in,[
+predicate('$add_clause_term'/2,525,static,private,monofile,built_in,[
     put_value(x(1),3),
     put_integer(0,1),
     put_integer(0,2),
     execute('$assert'/4)]).
 
 
-predicate('$add_clause_term_and_bc'/3,529,static,private,monofile,built_in,[
+predicate('$add_clause_term_and_bc'/3,531,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1570,7 +1573,7 @@ predicate('$add_clause_term_and_bc'/3,529,static,private,monofile,built_in,[
     execute('$add_clause_term'/2)]).
 
 
-predicate(listing/0,540,static,private,monofile,built_in,[
+predicate(listing/0,542,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[listing,0]),
     put_integer(5,0),
@@ -1581,7 +1584,7 @@ predicate(listing/0,540,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate(listing/1,549,static,private,monofile,built_in,[
+predicate(listing/1,551,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1613,7 +1616,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/0,566,static,private,monofile,built_in,[
+predicate('$listing_any'/0,568,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],['$listing_any',0]),
     put_integer(5,0),
@@ -1624,7 +1627,7 @@ predicate('$listing_any'/0,566,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/1,573,static,private,monofile,built_in,[
+predicate('$listing_any'/1,575,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1656,7 +1659,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_all'/1,593,static,private,monofile,built_in,[
+predicate('$listing_all'/1,595,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(3),
     get_variable(x(2),0),
@@ -1688,7 +1691,7 @@ label(1),
     proceed]).
 
 
-predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
+predicate('$listing_one_pi'/3,605,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1710,7 +1713,7 @@ predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
     execute('$predicate_property_pi_any'/2)]).
 
 
-predicate('$$listing_one_pi/3_$aux1'/1,603,static,private,monofile,local,[
+predicate('$$listing_one_pi/3_$aux1'/1,605,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1739,7 +1742,7 @@ label(1),
     execute('$not_aux_name'/1)]).
 
 
-predicate('$listing_one'/1,629,static,private,monofile,built_in,[
+predicate('$listing_one'/1,631,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1804,7 +1807,7 @@ predicate('$$prop_meta_pred/3_$aux3'/3,53,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux4'/3,547,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux4'/3,549,static,private,monofile,local,[
     get_atom(listing,0),
     get_integer(1,1),
     get_structure(listing/1,2),
@@ -1859,7 +1862,7 @@ directive(53,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(547,system,[
+directive(549,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux4'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(listing),
-- 
2.43.0


From efb58002581118e5cdaa649e19109150680d3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 48/58] fix: byte-code files were read with the active
 character conversions

---
 src/BipsPl/consult.pl  |  22 ++++++-
 src/BipsPl/consult.wam | 127 +++++++++++++++++++++++++++++------------
 2 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/src/BipsPl/consult.pl b/src/BipsPl/consult.pl
index 60727ba..acddd08 100644
--- a/src/BipsPl/consult.pl
+++ b/src/BipsPl/consult.pl
@@ -373,7 +373,7 @@ write_default_include_file(_).
 	g_read('$pl_file', PlFile), % save reentrancy (a directive invoking consult modifies '$pl_file')
 	open(BCFile, read, Stream),
 	repeat,
-	read(Stream, P),
+	'$read_bc'(Stream, P),
 	(   P = end_of_file ->
 	    !
 	;   '$load_pred'(P, Stream),
@@ -385,6 +385,24 @@ write_default_include_file(_).
 
 
 
+	% read a term of a byte-code file: character conversions do not apply
+
+'$read_bc'(Stream, Term) :-
+	current_prolog_flag(char_conversion, on), !,
+	set_prolog_flag(char_conversion, off),
+	'$catch'(read(Stream, Term1), Err, true, load, 1, false),
+	set_prolog_flag(char_conversion, on),
+	(   nonvar(Err) ->
+	    throw(Err)
+	;   Term = Term1
+	).
+
+'$read_bc'(Stream, Term) :-
+	read(Stream, Term).
+
+
+
+
 '$load_pred'(file_name(PlFile), _) :-
 	g_assign('$pl_file', PlFile).
 
@@ -415,7 +433,7 @@ write_default_include_file(_).
 	g_assign('$ctr', Ctr1),
 	(   Ctr = NbCl ->
 	    true
-	;   read(Stream, clause(Cl, WamCl)),
+	;   '$read_bc'(Stream, clause(Cl, WamCl)),
 	    '$add_clause_term_and_bc'(Cl, PlFile, WamCl),
 	    fail
 	), !.
diff --git a/src/BipsPl/consult.wam b/src/BipsPl/consult.wam
index 942a266..b44277c 100644
--- a/src/BipsPl/consult.wam
+++ b/src/BipsPl/consult.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: consult.pl
-% hash: bb6646f0e41398642745ad1a3309df3b68be7298  consult.pl
+% hash: 656b89fb7d71d5fa42c07140cebbedca4bda2635  consult.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/consult.pl').
@@ -1035,7 +1035,7 @@ predicate('$load_file'/1,372,static,private,monofile,built_in,[
     call(repeat/0),
     put_value(y(2),0),
     put_variable(y(3),1),
-    call(read/2),
+    call('$read_bc'/2),
     put_value(y(3),0),
     put_value(y(0),1),
     put_value(y(2),2),
@@ -1065,7 +1065,62 @@ label(1),
     fail]).
 
 
-predicate('$load_pred'/2,388,static,private,monofile,built_in,[
+predicate('$read_bc'/2,390,static,private,monofile,built_in,[
+    pragma_arity(3),
+    get_current_choice(x(2)),
+    try_me_else(1),
+    allocate(5),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    get_variable(y(2),2),
+    put_atom(char_conversion,0),
+    put_atom(on,1),
+    call(current_prolog_flag/2),
+    cut(y(2)),
+    put_atom(char_conversion,0),
+    put_atom(off,1),
+    call(set_prolog_flag/2),
+    put_structure(read/2,0),
+    unify_local_value(y(0)),
+    unify_variable(y(3)),
+    put_variable(y(4),1),
+    put_atom(true,2),
+    put_atom(load,3),
+    put_integer(1,4),
+    put_atom(false,5),
+    call('$catch'/6),
+    put_atom(char_conversion,0),
+    put_atom(on,1),
+    call(set_prolog_flag/2),
+    put_unsafe_value(y(4),0),
+    put_value(y(1),1),
+    put_value(y(3),2),
+    deallocate,
+    execute('$$read_bc/2_$aux1'/3),
+
+label(1),
+    trust_me_else_fail,
+    execute(read/2)]).
+
+
+predicate('$$read_bc/2_$aux1'/3,390,static,private,monofile,local,[
+    pragma_arity(4),
+    get_current_choice(x(3)),
+    try_me_else(1),
+    call_c('Pl_Blt_Non_Var',[fast_call,boolean],[x(0)]),
+    cut(x(3)),
+    put_atom('$read_bc',1),
+    put_integer(2,2),
+    put_atom(true,3),
+    execute('$throw'/4),
+
+label(1),
+    trust_me_else_fail,
+    get_value(x(2),1),
+    proceed]).
+
+
+predicate('$load_pred'/2,406,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(2,fail,fail,fail,1),
@@ -1160,7 +1215,7 @@ label(7),
     proceed]).
 
 
-predicate('$$load_pred/2_$aux3'/4,401,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux3'/4,419,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1176,7 +1231,7 @@ label(1),
     put_structure(clause/2,1),
     unify_variable(y(1)),
     unify_variable(y(2)),
-    call(read/2),
+    call('$read_bc'/2),
     put_value(y(1),0),
     put_value(y(0),1),
     put_value(y(2),2),
@@ -1184,7 +1239,7 @@ label(1),
     fail]).
 
 
-predicate('$$load_pred/2_$aux2'/6,401,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux2'/6,419,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1207,7 +1262,7 @@ label(1),
     execute('$check_owner_files'/3)]).
 
 
-predicate('$$load_pred/2_$aux1'/4,391,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux1'/4,409,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1244,7 +1299,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$load_directive_exception'/3,427,static,private,monofile,built_in,[
+predicate('$load_directive_exception'/3,445,static,private,monofile,built_in,[
     get_variable(x(3),2),
     put_atom('$pl_file',2),
     put_variable(x(4),5),
@@ -1263,7 +1318,7 @@ predicate('$load_directive_exception'/3,427,static,private,monofile,built_in,[
     execute(format/3)]).
 
 
-predicate('$check_pred_type'/4,434,static,private,monofile,built_in,[
+predicate('$check_pred_type'/4,452,static,private,monofile,built_in,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1290,7 +1345,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_pred_type/4_$aux1'/4,434,static,private,monofile,local,[
+predicate('$$check_pred_type/4_$aux1'/4,452,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1319,7 +1374,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$check_owner_files'/3,447,static,private,monofile,built_in,[
+predicate('$check_owner_files'/3,465,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1353,7 +1408,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_owner_files/3_$aux1'/6,447,static,private,monofile,local,[
+predicate('$$check_owner_files/3_$aux1'/6,465,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1391,7 +1446,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate(load/1,462,static,private,monofile,built_in,[
+predicate(load/1,480,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     allocate(2),
@@ -1406,7 +1461,7 @@ predicate(load/1,462,static,private,monofile,built_in,[
     execute('$load/1_$aux1'/1)]).
 
 
-predicate('$load/1_$aux1'/1,462,static,private,monofile,local,[
+predicate('$load/1_$aux1'/1,480,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1421,7 +1476,7 @@ label(1),
     execute('$load1'/1)]).
 
 
-predicate('$load1'/1,472,static,private,monofile,built_in,[
+predicate('$load1'/1,490,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1445,7 +1500,7 @@ label(4),
     execute('$load1'/1)]).
 
 
-predicate('$load2'/1,479,static,private,monofile,built_in,[
+predicate('$load2'/1,497,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     put_value(y(0),0),
@@ -1468,7 +1523,7 @@ predicate('$load2'/1,479,static,private,monofile,built_in,[
     execute('$load_file'/1)]).
 
 
-predicate('$$load2/1_$aux2'/2,479,static,private,monofile,local,[
+predicate('$$load2/1_$aux2'/2,497,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1486,7 +1541,7 @@ label(1),
     execute('$pl_err_existence'/2)]).
 
 
-predicate('$$load2/1_$aux1'/3,479,static,private,monofile,local,[
+predicate('$$load2/1_$aux1'/3,497,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1502,22 +1557,22 @@ label(1),
     proceed]).
 
 
-predicate('$bc_start_pred'/8,497,static,private,monofile,built_in,[
+predicate('$bc_start_pred'/8,515,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Pred_8',[],[x(0),x(1),x(2),x(3),x(4),x(5),x(6),x(7)]),
     proceed]).
 
 
-predicate('$bc_start_emit'/0,501,static,private,monofile,built_in,[
+predicate('$bc_start_emit'/0,519,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_stop_emit'/0,504,static,private,monofile,built_in,[
+predicate('$bc_stop_emit'/0,522,static,private,monofile,built_in,[
     call_c('Pl_BC_Stop_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_emit'/1,507,static,private,monofile,built_in,[
+predicate('$bc_emit'/1,525,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1541,24 +1596,24 @@ label(4),
     execute('$bc_emit'/1)]).
 
 
-predicate('$bc_emit_inst'/1,513,static,private,monofile,built_in,[
+predicate('$bc_emit_inst'/1,531,static,private,monofile,built_in,[
     call_c('Pl_BC_Emit_Inst_1',[],[x(0)]),
     proceed]).
 
 
-predicate('$bc_emulate_cont'/0,519,static,private,monofile,built_in,[
+predicate('$bc_emulate_cont'/0,537,static,private,monofile,built_in,[
     call_c('Pl_BC_Emulate_Cont_0',[jump],[]),
     proceed]).
 
 
-predicate('$add_clause_term'/2,525,static,private,monofile,built_in,[
+predicate('$add_clause_term'/2,543,static,private,monofile,built_in,[
     put_value(x(1),3),
     put_integer(0,1),
     put_integer(0,2),
     execute('$assert'/4)]).
 
 
-predicate('$add_clause_term_and_bc'/3,531,static,private,monofile,built_in,[
+predicate('$add_clause_term_and_bc'/3,549,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1573,7 +1628,7 @@ predicate('$add_clause_term_and_bc'/3,531,static,private,monofile,built_in,[
     execute('$add_clause_term'/2)]).
 
 
-predicate(listing/0,542,static,private,monofile,built_in,[
+predicate(listing/0,560,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[listing,0]),
     put_integer(5,0),
@@ -1584,7 +1639,7 @@ predicate(listing/0,542,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate(listing/1,551,static,private,monofile,built_in,[
+predicate(listing/1,569,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1616,7 +1671,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/0,568,static,private,monofile,built_in,[
+predicate('$listing_any'/0,586,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],['$listing_any',0]),
     put_integer(5,0),
@@ -1627,7 +1682,7 @@ predicate('$listing_any'/0,568,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/1,575,static,private,monofile,built_in,[
+predicate('$listing_any'/1,593,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1659,7 +1714,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_all'/1,595,static,private,monofile,built_in,[
+predicate('$listing_all'/1,613,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(3),
     get_variable(x(2),0),
@@ -1691,7 +1746,7 @@ label(1),
     proceed]).
 
 
-predicate('$listing_one_pi'/3,605,static,private,monofile,built_in,[
+predicate('$listing_one_pi'/3,623,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1713,7 +1768,7 @@ predicate('$listing_one_pi'/3,605,static,private,monofile,built_in,[
     execute('$predicate_property_pi_any'/2)]).
 
 
-predicate('$$listing_one_pi/3_$aux1'/1,605,static,private,monofile,local,[
+predicate('$$listing_one_pi/3_$aux1'/1,623,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1742,7 +1797,7 @@ label(1),
     execute('$not_aux_name'/1)]).
 
 
-predicate('$listing_one'/1,631,static,private,monofile,built_in,[
+predicate('$listing_one'/1,649,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1807,7 +1862,7 @@ predicate('$$prop_meta_pred/3_$aux3'/3,53,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux4'/3,549,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux4'/3,567,static,private,monofile,local,[
     get_atom(listing,0),
     get_integer(1,1),
     get_structure(listing/1,2),
@@ -1862,7 +1917,7 @@ directive(53,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(549,system,[
+directive(567,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux4'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(listing),
-- 
2.43.0


From 59e9a7dac38df976af92a7728f03970c9aaa51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 49/58] fix: the clauses of a term_expansion/2 list were read
 out of order after another predicate

---
 src/Pl2Wam/read_file.pl  |  11 +-
 src/Pl2Wam/read_file.wam | 248 +++++++++++++++++++--------------------
 2 files changed, 130 insertions(+), 129 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index 8ca1285..fbbe7fc 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -437,17 +437,18 @@ get_file_name([of(PlFile, _, _)|_] + _, PlFile).
 
 
 
-get_next_clause(Pred, N, SrcCl) :-
-	retract(buff_raw_clause(Cl, Where)), !,
-	g_assign(where, Where),
-	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
-
+		% buff_src_clause first: it is read before the clauses in buff_raw_clause
 
 get_next_clause(Pred, N, SrcCl) :-
 	retract(buff_src_clause(Pred, N, SrcCl)), !,
 	SrcCl = Where + _,
 	g_assign(where, Where).
 
+get_next_clause(Pred, N, SrcCl) :-
+	retract(buff_raw_clause(Cl, Where)), !,
+	g_assign(where, Where),
+	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
+
 get_next_clause(Pred, N, SrcCl) :-
 	g_read(open_file_stack, OpenFileStack),
 	OpenFileStack = [of(_, Stream, _)|_],
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index e00d51d..8a94ab6 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 97cfa0f50b59704ed04f6cad7c7280503358f674  read_file.pl
+% hash: fff88b5f66212aebfb075f970e3a8127e8038fc5  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -1030,10 +1030,31 @@ predicate(get_file_name/2,435,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_next_clause/3,440,static,private,monofile,global,[
+predicate(get_next_clause/3,442,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
+    allocate(2),
+    get_variable(y(0),2),
+    get_variable(x(2),0),
+    get_variable(y(1),3),
+    put_structure(buff_src_clause/3,0),
+    unify_local_value(x(2)),
+    unify_local_value(x(1)),
+    unify_local_value(y(0)),
+    call(retract/1),
+    cut(y(1)),
+    put_value(y(0),0),
+    get_structure((+)/2,0),
+    unify_variable(x(1)),
+    unify_void(1),
+    put_atom(where,0),
+    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
+    deallocate,
+    proceed,
+
+label(1),
+    retry_me_else(2),
     allocate(6),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1056,27 +1077,6 @@ predicate(get_next_clause/3,440,static,private,monofile,global,[
     deallocate,
     execute(get_next_clause2/6),
 
-label(1),
-    retry_me_else(2),
-    allocate(2),
-    get_variable(y(0),2),
-    get_variable(x(2),0),
-    get_variable(y(1),3),
-    put_structure(buff_src_clause/3,0),
-    unify_local_value(x(2)),
-    unify_local_value(x(1)),
-    unify_local_value(y(0)),
-    call(retract/1),
-    cut(y(1)),
-    put_value(y(0),0),
-    get_structure((+)/2,0),
-    unify_variable(x(1)),
-    unify_void(1),
-    put_atom(where,0),
-    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
-    deallocate,
-    proceed,
-
 label(2),
     trust_me_else_fail,
     allocate(9),
@@ -1127,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,451,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,452,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1193,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,451,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,452,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1210,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,471,static,private,monofile,global,[
+predicate(get_next_clause1/7,472,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1231,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,471,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,472,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1264,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,471,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,472,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1287,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,491,static,private,monofile,global,[
+predicate(get_next_clause2/6,492,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1395,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,518,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,519,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1411,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,508,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,509,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1424,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,508,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,509,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1439,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,491,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,492,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1463,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,539,static,private,monofile,global,[
+predicate(after_syn_error/0,540,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1497,7 +1497,7 @@ predicate(after_syn_error/0,539,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,551,static,private,monofile,global,[
+predicate(expand_error/3,552,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1536,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,563,static,private,monofile,global,[
+predicate(display_singletons/1,564,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1556,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,563,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,564,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1573,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,576,static,private,monofile,global,[
+predicate(get_singletons/2,577,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1603,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,578,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,579,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1630,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,600,static,private,monofile,global,[
+predicate(pp_handle_term/1,601,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1662,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,611,static,private,monofile,global,[
+predicate(pp_handle_directive/1,612,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1708,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,640,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,641,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1729,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,628,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,629,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1765,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,628,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,629,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1796,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,618,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,619,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1820,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,618,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,619,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1844,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,611,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,612,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1876,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,649,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,650,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,649,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,650,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1930,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,659,static,private,monofile,global,[
+predicate(pp_start/0,660,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,665,static,private,monofile,global,[
+predicate(pp_stop/0,666,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1954,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,679,static,private,monofile,global,[
+predicate(handle_directive/2,680,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1981,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,856,static,private,monofile,global,[
+predicate(foreign_get_options/1,857,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2009,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,863,static,private,monofile,global,[
+predicate(foreign_get_options1/1,864,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2107,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,867,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,868,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2135,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,897,static,private,monofile,global,[
+predicate(foreign_check_types/4,898,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2177,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,900,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,901,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2220,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,918,static,private,monofile,global,[
+predicate(foreign_check_arg/1,919,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2339,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,938,static,private,monofile,global,[
+predicate(embed_clause/3,939,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2372,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,938,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,939,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2404,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,938,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,939,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2434,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,959,static,private,monofile,global,[
+predicate(handle_init_directive/3,960,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2458,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,967,static,private,monofile,global,[
+predicate(embed_directive/2,968,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2485,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,967,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,968,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2509,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,967,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,968,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2538,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,985,static,private,monofile,global,[
+predicate(exec_directive/1,986,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2569,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,993,static,private,monofile,global,[
+predicate(exec_directive_exception/2,994,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2580,7 +2580,7 @@ predicate(exec_directive_exception/2,993,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,999,static,private,monofile,global,[
+predicate(record_initialization/3,1000,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2609,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1008,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1009,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2639,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1010,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1011,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2666,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1020,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1021,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2693,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1022,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1023,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2718,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1033,static,private,monofile,global,[
+predicate(add_module_export_info/2,1034,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2748,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1035,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1036,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2791,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1035,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1036,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2814,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1051,static,private,monofile,global,[
+predicate(check_pi_specif/3,1052,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2840,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1065,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1066,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2921,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1090,static,private,monofile,global,[
+predicate(check_callable/2,1091,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2952,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1104,static,private,monofile,global,[
+predicate(check_module_name/2,1105,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2976,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1125,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1126,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2998,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1135,static,private,monofile,global,[
+predicate(check_module_clash/2,1136,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3038,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1147,static,private,monofile,global,[
+predicate(get_owner_module/3,1148,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3065,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1155,static,private,monofile,global,[
+predicate(is_exported/2,1156,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3082,7 +3082,7 @@ predicate(is_exported/2,1155,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1162,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3095,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1161,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1162,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3134,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1173,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1174,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3169,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1180,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1181,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3225,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1192,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1193,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3257,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1204,static,private,monofile,global,[
+predicate(define_predicate/2,1205,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3319,7 +3319,7 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1224,static,private,monofile,global,[
+predicate(flag_bit/2,1225,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3414,7 +3414,7 @@ label(23),
     proceed]).
 
 
-predicate(set_pred_flag/3,1240,static,private,monofile,global,[
+predicate(set_pred_flag/3,1241,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3442,7 +3442,7 @@ predicate(set_pred_flag/3,1240,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1240,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1241,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3462,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1251,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1252,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3496,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1262,static,private,monofile,global,[
+predicate(test_pred_flag/3,1263,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3523,7 +3523,7 @@ predicate(test_pred_flag/3,1262,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1270,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1271,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3555,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1325,static,private,monofile,global,[
+predicate(check_predicate/2,1326,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3670,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1354,static,private,monofile,global,[
+predicate(reserved_predicate/2,1355,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3705,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1359,static,private,monofile,global,[
+predicate(bip/2,1360,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3717,7 +3717,7 @@ predicate(bip/2,1359,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1367,static,private,monofile,global,[
+predicate(control_construct/2,1368,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3796,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1384,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1385,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3861,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1395,static,private,monofile,global,[
+predicate(warn/2,1396,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3869,7 +3869,7 @@ predicate(warn/2,1395,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1401,static,private,monofile,global,[
+predicate(error/2,1402,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3886,7 +3886,7 @@ predicate(error/2,1401,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1401,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1402,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3902,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1413,static,private,monofile,global,[
+predicate(abandon_exec/0,1414,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1419,static,private,monofile,global,[
+predicate(disp_msg/4,1420,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3931,7 +3931,7 @@ predicate(disp_msg/4,1419,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1419,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1420,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3958,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1436,static,private,monofile,global,[
+predicate(disp_file_name/3,1437,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3994,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1439,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1440,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4027,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1439,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1440,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4043,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1455,static,private,monofile,global,[
+predicate(disp_lines/1,1456,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4085,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1464,static,private,monofile,global,[
+predicate(disp_column/1,1465,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4105,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1476,static,private,monofile,global,[
+predicate(exception/1,1477,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4205,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,689,static,private,monofile,global,[
+predicate(handle_directive/3,690,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4652,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,827,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,828,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4680,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,806,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,807,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4732,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,789,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,790,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4757,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,768,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4770,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,768,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4794,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,768,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4807,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,768,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4831,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,736,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,737,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4848,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,728,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,729,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4865,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,720,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,721,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4882,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,712,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,713,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From 48e16d60372466af2695c9ca30d3d25ae78d4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 50/58] fix: an uncaught exception in a directive of a compiled
 program resumed the pending alternatives

---
 src/BipsPl/throw_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/throw_c.c b/src/BipsPl/throw_c.c
index 48e4716..76669d7 100644
--- a/src/BipsPl/throw_c.c
+++ b/src/BipsPl/throw_c.c
@@ -98,6 +98,10 @@ Pl_Throw_2(WamWord ball_word, WamWord b_word)
 		    WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_QUOTED, NULL,
 		    ball_word);
       Pl_Stream_Printf(pstm, "))\n");
+
+      for (b = B; BB(b) > LSSA; b = BB(b)) /* back to the 1st choice point: */
+	;				/* no pending alternative is resumed */
+      Assign_B(b);
       return;
     }
 
-- 
2.43.0


From e5c623ca3535d4c6d747ad1a021b6b2ea51c5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 51/58] fix: the clauses of a compiled multifile predicate kept
 the relative name of their file, so loading that file again did not replace
 them

---
 src/Pl2Wam/read_file.pl  |   3 +-
 src/Pl2Wam/read_file.wam | 210 +++++++++++++++++++--------------------
 2 files changed, 107 insertions(+), 106 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index fbbe7fc..7d7a8f6 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -432,7 +432,8 @@ create_exe_clauses_for_pub_pred([Where + Cl|LSrcCl]) :-
 
 
 
-get_file_name([of(PlFile, _, _)|_] + _, PlFile).
+get_file_name([of(PlFile, _, _)|_] + _, PlFile1) :-	% same name as in the file_name/1 of the .wam
+	absolute_file_name(PlFile, PlFile1).
 
 
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index 8a94ab6..cd5dcc3 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: fff88b5f66212aebfb075f970e3a8127e8038fc5  read_file.pl
+% hash: d7efa3100b6ad00d3a0b5be2743e23511d4cf5dd  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -1025,12 +1025,12 @@ predicate(get_file_name/2,435,static,private,monofile,global,[
     unify_variable(x(0)),
     unify_void(1),
     get_structure(of/3,0),
-    unify_local_value(x(1)),
+    unify_variable(x(0)),
     unify_void(2),
-    proceed]).
+    execute(absolute_file_name/2)]).
 
 
-predicate(get_next_clause/3,442,static,private,monofile,global,[
+predicate(get_next_clause/3,443,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1127,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,452,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,453,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1193,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,452,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,453,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1210,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,472,static,private,monofile,global,[
+predicate(get_next_clause1/7,473,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1231,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,472,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,473,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1264,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,472,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,473,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1287,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,492,static,private,monofile,global,[
+predicate(get_next_clause2/6,493,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1395,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,519,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,520,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1411,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,509,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,510,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1424,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,509,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,510,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1439,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,492,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,493,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1463,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,540,static,private,monofile,global,[
+predicate(after_syn_error/0,541,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1497,7 +1497,7 @@ predicate(after_syn_error/0,540,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,552,static,private,monofile,global,[
+predicate(expand_error/3,553,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1536,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,564,static,private,monofile,global,[
+predicate(display_singletons/1,565,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1556,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,564,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,565,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1573,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,577,static,private,monofile,global,[
+predicate(get_singletons/2,578,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1603,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,579,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,580,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1630,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,601,static,private,monofile,global,[
+predicate(pp_handle_term/1,602,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1662,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,612,static,private,monofile,global,[
+predicate(pp_handle_directive/1,613,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1708,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,641,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,642,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1729,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,629,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,630,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1765,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,629,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,630,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1796,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,619,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,620,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1820,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,619,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,620,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1844,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,612,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,613,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1876,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,650,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,651,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,650,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,651,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1930,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,660,static,private,monofile,global,[
+predicate(pp_start/0,661,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,666,static,private,monofile,global,[
+predicate(pp_stop/0,667,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1954,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,680,static,private,monofile,global,[
+predicate(handle_directive/2,681,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1981,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,857,static,private,monofile,global,[
+predicate(foreign_get_options/1,858,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2009,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,864,static,private,monofile,global,[
+predicate(foreign_get_options1/1,865,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2107,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,868,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,869,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2135,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,898,static,private,monofile,global,[
+predicate(foreign_check_types/4,899,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2177,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,901,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,902,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2220,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,919,static,private,monofile,global,[
+predicate(foreign_check_arg/1,920,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2339,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,939,static,private,monofile,global,[
+predicate(embed_clause/3,940,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2372,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,939,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,940,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2404,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,939,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,940,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2434,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,960,static,private,monofile,global,[
+predicate(handle_init_directive/3,961,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2458,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,968,static,private,monofile,global,[
+predicate(embed_directive/2,969,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2485,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,968,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,969,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2509,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,968,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,969,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2538,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,986,static,private,monofile,global,[
+predicate(exec_directive/1,987,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2569,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,994,static,private,monofile,global,[
+predicate(exec_directive_exception/2,995,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2580,7 +2580,7 @@ predicate(exec_directive_exception/2,994,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,1000,static,private,monofile,global,[
+predicate(record_initialization/3,1001,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2609,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1009,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1010,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2639,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1011,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1012,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2666,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1021,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1022,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2693,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1023,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1024,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2718,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1034,static,private,monofile,global,[
+predicate(add_module_export_info/2,1035,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2748,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1036,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1037,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2791,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1036,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1037,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2814,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1052,static,private,monofile,global,[
+predicate(check_pi_specif/3,1053,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2840,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1066,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1067,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2921,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1091,static,private,monofile,global,[
+predicate(check_callable/2,1092,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2952,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1105,static,private,monofile,global,[
+predicate(check_module_name/2,1106,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2976,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1126,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1127,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2998,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1136,static,private,monofile,global,[
+predicate(check_module_clash/2,1137,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3038,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1148,static,private,monofile,global,[
+predicate(get_owner_module/3,1149,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3065,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1156,static,private,monofile,global,[
+predicate(is_exported/2,1157,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3082,7 +3082,7 @@ predicate(is_exported/2,1156,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1162,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1163,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3095,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1162,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1162,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1163,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3134,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1174,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1175,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3169,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1181,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1182,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3225,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1193,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1194,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3257,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1205,static,private,monofile,global,[
+predicate(define_predicate/2,1206,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3319,7 +3319,7 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1225,static,private,monofile,global,[
+predicate(flag_bit/2,1226,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3414,7 +3414,7 @@ label(23),
     proceed]).
 
 
-predicate(set_pred_flag/3,1241,static,private,monofile,global,[
+predicate(set_pred_flag/3,1242,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3442,7 +3442,7 @@ predicate(set_pred_flag/3,1241,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1241,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1242,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3462,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1252,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1253,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3496,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1263,static,private,monofile,global,[
+predicate(test_pred_flag/3,1264,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3523,7 +3523,7 @@ predicate(test_pred_flag/3,1263,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1271,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1272,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3555,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1326,static,private,monofile,global,[
+predicate(check_predicate/2,1327,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3670,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1355,static,private,monofile,global,[
+predicate(reserved_predicate/2,1356,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3705,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1360,static,private,monofile,global,[
+predicate(bip/2,1361,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3717,7 +3717,7 @@ predicate(bip/2,1360,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1368,static,private,monofile,global,[
+predicate(control_construct/2,1369,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3796,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1385,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1386,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3861,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1396,static,private,monofile,global,[
+predicate(warn/2,1397,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3869,7 +3869,7 @@ predicate(warn/2,1396,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1402,static,private,monofile,global,[
+predicate(error/2,1403,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3886,7 +3886,7 @@ predicate(error/2,1402,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1402,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1403,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3902,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1414,static,private,monofile,global,[
+predicate(abandon_exec/0,1415,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1420,static,private,monofile,global,[
+predicate(disp_msg/4,1421,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3931,7 +3931,7 @@ predicate(disp_msg/4,1420,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1420,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1421,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3958,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1437,static,private,monofile,global,[
+predicate(disp_file_name/3,1438,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3994,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1440,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1441,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4027,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1440,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1441,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4043,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1456,static,private,monofile,global,[
+predicate(disp_lines/1,1457,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4085,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1465,static,private,monofile,global,[
+predicate(disp_column/1,1466,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4105,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1477,static,private,monofile,global,[
+predicate(exception/1,1478,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4205,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,690,static,private,monofile,global,[
+predicate(handle_directive/3,691,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4652,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,828,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,829,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4680,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,807,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,808,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4732,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,790,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,791,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4757,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,768,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,769,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4770,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,768,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,769,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4794,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,768,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,769,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4807,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,768,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,769,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4831,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,737,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,738,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4848,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,729,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,730,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4865,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,721,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,722,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4882,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,713,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,714,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From 0589bc6d41e003fd5e5b4754b23ca31104792bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 52/58] fix: the .wam of a built-in's multifile clauses
 depended on the directory it was compiled in

---
 src/Pl2Wam/read_file.pl  |   4 +
 src/Pl2Wam/read_file.wam | 265 ++++++++++++++++++++++++---------------
 2 files changed, 166 insertions(+), 103 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index 7d7a8f6..139b4c0 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -432,6 +432,10 @@ create_exe_clauses_for_pub_pred([Where + Cl|LSrcCl]) :-
 
 
 
+get_file_name([of(PlFile, _, _)|_] + _, PlFile) :-	% built-ins are not reloaded: keep the .wam independent of the dir
+	g_read(default_kind, Kind),
+	(Kind = built_in ; Kind = built_in_fd), !.
+
 get_file_name([of(PlFile, _, _)|_] + _, PlFile1) :-	% same name as in the file_name/1 of the .wam
 	absolute_file_name(PlFile, PlFile1).
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index cd5dcc3..89c27ad 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: d7efa3100b6ad00d3a0b5be2743e23511d4cf5dd  read_file.pl
+% hash: ab36057eedd05fc26e7ca347d1dbc922188add4e  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -1018,6 +1018,44 @@ label(4),
 
 
 predicate(get_file_name/2,435,static,private,monofile,global,[
+    pragma_arity(3),
+    get_current_choice(x(2)),
+    switch_on_term(3,fail,fail,fail,1),
+
+label(1),
+    switch_on_structure([((+)/2,2)]),
+
+label(2),
+    try(4),
+    trust(6),
+
+label(3),
+    try_me_else(5),
+
+label(4),
+    allocate(1),
+    get_structure((+)/2,0),
+    unify_variable(x(0)),
+    unify_void(1),
+    get_list(0),
+    unify_variable(x(0)),
+    unify_void(1),
+    get_structure(of/3,0),
+    unify_local_value(x(1)),
+    unify_void(2),
+    get_variable(y(0),2),
+    put_atom(default_kind,1),
+    put_variable(x(0),2),
+    call_c('Pl_Blt_G_Read',[fast_call,boolean],[x(1),x(2)]),
+    call('$get_file_name/2_$aux1'/1),
+    cut(y(0)),
+    deallocate,
+    proceed,
+
+label(5),
+    trust_me_else_fail,
+
+label(6),
     get_structure((+)/2,0),
     unify_variable(x(0)),
     unify_void(1),
@@ -1030,7 +1068,28 @@ predicate(get_file_name/2,435,static,private,monofile,global,[
     execute(absolute_file_name/2)]).
 
 
-predicate(get_next_clause/3,443,static,private,monofile,global,[
+predicate('$get_file_name/2_$aux1'/1,435,static,private,monofile,local,[
+    switch_on_term(2,1,fail,fail,fail),
+
+label(1),
+    switch_on_atom([(built_in,3),(built_in_fd,5)]),
+
+label(2),
+    try_me_else(4),
+
+label(3),
+    get_atom(built_in,0),
+    proceed,
+
+label(4),
+    trust_me_else_fail,
+
+label(5),
+    get_atom(built_in_fd,0),
+    proceed]).
+
+
+predicate(get_next_clause/3,447,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1127,7 +1186,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,453,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,457,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1193,7 +1252,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,453,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,457,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1210,7 +1269,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,473,static,private,monofile,global,[
+predicate(get_next_clause1/7,477,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1231,7 +1290,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,473,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,477,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1264,7 +1323,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,473,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,477,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1287,7 +1346,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,493,static,private,monofile,global,[
+predicate(get_next_clause2/6,497,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1395,7 +1454,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,520,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,524,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1411,7 +1470,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,510,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,514,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1424,7 +1483,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,510,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,514,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1439,7 +1498,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,493,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,497,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1463,7 +1522,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,541,static,private,monofile,global,[
+predicate(after_syn_error/0,545,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1497,7 +1556,7 @@ predicate(after_syn_error/0,541,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,553,static,private,monofile,global,[
+predicate(expand_error/3,557,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1536,7 +1595,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,565,static,private,monofile,global,[
+predicate(display_singletons/1,569,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1556,7 +1615,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,565,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,569,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1573,7 +1632,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,578,static,private,monofile,global,[
+predicate(get_singletons/2,582,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1603,7 +1662,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,580,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,584,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1630,7 +1689,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,602,static,private,monofile,global,[
+predicate(pp_handle_term/1,606,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1662,7 +1721,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,613,static,private,monofile,global,[
+predicate(pp_handle_directive/1,617,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1708,7 +1767,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,642,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,646,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1729,7 +1788,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,630,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,634,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1765,7 +1824,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,630,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,634,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1796,7 +1855,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,620,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,624,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1820,7 +1879,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,620,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,624,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1844,7 +1903,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,613,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,617,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1876,14 +1935,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,651,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,655,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,651,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,655,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1930,14 +1989,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,661,static,private,monofile,global,[
+predicate(pp_start/0,665,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,667,static,private,monofile,global,[
+predicate(pp_stop/0,671,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1954,7 +2013,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,681,static,private,monofile,global,[
+predicate(handle_directive/2,685,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1981,7 +2040,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,858,static,private,monofile,global,[
+predicate(foreign_get_options/1,862,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2009,7 +2068,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,865,static,private,monofile,global,[
+predicate(foreign_get_options1/1,869,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2107,7 +2166,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,869,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,873,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2135,7 +2194,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,899,static,private,monofile,global,[
+predicate(foreign_check_types/4,903,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2177,7 +2236,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,902,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,906,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2220,7 +2279,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,920,static,private,monofile,global,[
+predicate(foreign_check_arg/1,924,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2339,7 +2398,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,940,static,private,monofile,global,[
+predicate(embed_clause/3,944,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2372,7 +2431,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,940,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,944,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2404,7 +2463,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,940,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,944,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2434,7 +2493,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,961,static,private,monofile,global,[
+predicate(handle_init_directive/3,965,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2458,7 +2517,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,969,static,private,monofile,global,[
+predicate(embed_directive/2,973,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2485,7 +2544,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,969,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,973,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2509,7 +2568,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,969,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,973,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2538,7 +2597,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,987,static,private,monofile,global,[
+predicate(exec_directive/1,991,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2569,7 +2628,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,995,static,private,monofile,global,[
+predicate(exec_directive_exception/2,999,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2580,7 +2639,7 @@ predicate(exec_directive_exception/2,995,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,1001,static,private,monofile,global,[
+predicate(record_initialization/3,1005,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2609,7 +2668,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1010,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1014,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2639,7 +2698,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1012,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1016,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2666,7 +2725,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1022,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1026,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2693,7 +2752,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1024,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1028,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2718,7 +2777,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1035,static,private,monofile,global,[
+predicate(add_module_export_info/2,1039,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2748,7 +2807,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1037,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1041,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2791,7 +2850,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1037,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1041,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2814,7 +2873,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1053,static,private,monofile,global,[
+predicate(check_pi_specif/3,1057,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2840,7 +2899,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1067,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1071,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2921,7 +2980,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1092,static,private,monofile,global,[
+predicate(check_callable/2,1096,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2952,7 +3011,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1106,static,private,monofile,global,[
+predicate(check_module_name/2,1110,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2976,7 +3035,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1127,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1131,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2998,7 +3057,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1137,static,private,monofile,global,[
+predicate(check_module_clash/2,1141,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3038,7 +3097,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1149,static,private,monofile,global,[
+predicate(get_owner_module/3,1153,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3065,7 +3124,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1157,static,private,monofile,global,[
+predicate(is_exported/2,1161,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3082,7 +3141,7 @@ predicate(is_exported/2,1157,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1163,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1167,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3095,7 +3154,7 @@ predicate(get_module_of_cur_pred/1,1163,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1163,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1167,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3134,7 +3193,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1175,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1179,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3169,7 +3228,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1182,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1186,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3225,7 +3284,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1194,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1198,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3257,7 +3316,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1206,static,private,monofile,global,[
+predicate(define_predicate/2,1210,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3319,7 +3378,7 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1226,static,private,monofile,global,[
+predicate(flag_bit/2,1230,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3414,7 +3473,7 @@ label(23),
     proceed]).
 
 
-predicate(set_pred_flag/3,1242,static,private,monofile,global,[
+predicate(set_pred_flag/3,1246,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3442,7 +3501,7 @@ predicate(set_pred_flag/3,1242,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1242,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1246,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3462,7 +3521,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1253,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1257,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3496,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1264,static,private,monofile,global,[
+predicate(test_pred_flag/3,1268,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3523,7 +3582,7 @@ predicate(test_pred_flag/3,1264,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1272,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1276,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3555,7 +3614,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1327,static,private,monofile,global,[
+predicate(check_predicate/2,1331,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3670,7 +3729,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1356,static,private,monofile,global,[
+predicate(reserved_predicate/2,1360,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3705,7 +3764,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1361,static,private,monofile,global,[
+predicate(bip/2,1365,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3717,7 +3776,7 @@ predicate(bip/2,1361,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1369,static,private,monofile,global,[
+predicate(control_construct/2,1373,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3796,7 +3855,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1386,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1390,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3861,7 +3920,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1397,static,private,monofile,global,[
+predicate(warn/2,1401,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3869,7 +3928,7 @@ predicate(warn/2,1397,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1403,static,private,monofile,global,[
+predicate(error/2,1407,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3886,7 +3945,7 @@ predicate(error/2,1403,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1403,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1407,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3902,11 +3961,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1415,static,private,monofile,global,[
+predicate(abandon_exec/0,1419,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1421,static,private,monofile,global,[
+predicate(disp_msg/4,1425,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3931,7 +3990,7 @@ predicate(disp_msg/4,1421,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1421,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1425,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3958,7 +4017,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1438,static,private,monofile,global,[
+predicate(disp_file_name/3,1442,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3994,7 +4053,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1441,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1445,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4027,7 +4086,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1441,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1445,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4043,7 +4102,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1457,static,private,monofile,global,[
+predicate(disp_lines/1,1461,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4085,7 +4144,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1466,static,private,monofile,global,[
+predicate(disp_column/1,1470,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4105,7 +4164,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1478,static,private,monofile,global,[
+predicate(exception/1,1482,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4205,7 +4264,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,691,static,private,monofile,global,[
+predicate(handle_directive/3,695,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4652,7 +4711,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,829,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,833,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4680,7 +4739,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,808,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,812,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4732,7 +4791,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,791,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,795,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4757,7 +4816,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,769,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,773,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4770,7 +4829,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,769,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,773,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4794,7 +4853,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,769,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,773,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4807,7 +4866,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,769,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,773,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4831,7 +4890,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,738,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,742,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4848,7 +4907,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,730,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,734,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4865,7 +4924,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,722,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,726,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4882,7 +4941,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,714,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,718,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From 7ccea5b3976b4d05a5e5034876e7a77396667f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 53/58] fix: closing an unrecoverable query could remove the
 choice point of the recoverable query around it

---
 src/BipsPl/foreign_supp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index d2c77bb..d97aba1 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -73,6 +73,7 @@ static PlFIOArg fio_arg_array[NB_OF_X_REGS];
 
 static WamWord *query_stack[QUERY_STACK_SIZE];
 static WamWord **query_stack_top = query_stack;
+static Bool query_recoverable[QUERY_STACK_SIZE];
 static WamWord *goal_H;
 
 WamWord *pl_query_top_b;		/* overwrite var of throw_c.c */
@@ -322,6 +323,9 @@ Pl_Query_Begin(Bool recoverable)
     Pl_Fatal_Error("too many nested Pl_Query_Start() (max: %d)",
 		   QUERY_STACK_SIZE);
 
+  /* ALTB(query_b) cannot tell: an unrecoverable query has no choice-point of its own */
+  query_recoverable[query_stack_top - query_stack] = recoverable;
+
   if (recoverable)
     Pl_Create_Choice_Point(Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0), 0);
 }
@@ -426,7 +430,7 @@ Pl_Query_End(int op)
   pl_query_top_b = (query_stack_top == query_stack) ? NULL :
     query_stack_top[-1];
 
-  recoverable = (ALTB(query_b) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0));
+  recoverable = query_recoverable[query_stack_top - query_stack];
   prev_b = BB(query_b);
 
   switch (op)
-- 
2.43.0


From d861af16c570647f48ee7e82e7391d608466af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 54/58] fix: a cut in an alternative kept by PL_KEEP_FOR_PROLOG
 reused the removed choice point of its query

---
 src/BipsPl/foreign_supp.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index d97aba1..84b7392 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -419,7 +419,7 @@ Pl_Query_Next_Solution(void)
 void
 Pl_Query_End(int op)
 {
-  WamWord *query_b, *prev_b, *b;
+  WamWord *query_b, *prev_b;
   Bool recoverable;
 
 
@@ -448,15 +448,10 @@ Pl_Query_End(int op)
       break;
 
     default:			/* case PL_KEEP_FOR_PROLOG */
-      if (recoverable)
-	{
-	  if (B == query_b)
-	    Assign_B(prev_b);
-	  else
-	    for (b = B; b > query_b; b = BB(b))	/* unlink recover chc-point */
-	      if (BB(b) == query_b)
-		BB(b) = prev_b;
-	}
+      /* else keep recover chc-point: it can be the cut level of an alternative */
+      if (recoverable && B == query_b)
+	Assign_B(prev_b);
+
       Pl_Keep_Rest_For_Prolog(query_b);
     }
 }
-- 
2.43.0


From dc19cdfa1232601f7161f03d031cf989b3d65580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 55/58] fix: erased clauses were freed while their code could
 still be resumed by backtracking

---
 src/BipsPl/bc_supp.c    | 11 ++++++-----
 src/BipsPl/dynam_supp.c | 38 ++++++++++----------------------------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/src/BipsPl/bc_supp.c b/src/BipsPl/bc_supp.c
index e424a30..c894474 100644
--- a/src/BipsPl/bc_supp.c
+++ b/src/BipsPl/bc_supp.c
@@ -868,7 +868,7 @@ BC_Arg_Func_Arity(WamWord arg_word, int *arity)
  * To reliably recognize a BC frame during GC-clause, CPE(E) is
  * temporarily replaced by a sentinel code address. The original CPE(E)
  * must therefore be saved when the environment is created (allocate) and
- * restored when it is destroyed (deallocate). The clause associated with
+ * used when it is destroyed (deallocate). The clause associated with
  * the currently executing byte-code must also be recorded.
  *
  * Three permanent variables are thus reserved for BC execution:
@@ -882,8 +882,9 @@ BC_Arg_Func_Arity(WamWord arg_word, int *arity)
  *   - BC_FRAME_BEGIN: executed immediately after ALLOCATE to save CP(E)
  *     and replace CPE(E) with the sentinel.
  *
- *   - BC_FRAME_END: executed immediately before DEALLOCATE to restore
- *     CPE(E).
+ *   - BC_FRAME_END: executed instead of DEALLOCATE: restore CP from
+ *     Y_SAVE_CPE(E). CPE(E) keeps the sentinel since the frame can be
+ *     reactivated by backtracking (it is then again a BC frame).
  *
  *   - BC_BEFORE_CALL: executed just before a CALL to save the BC
  *     continuation (BC PC + debug_call) and set CP to a native
@@ -960,7 +961,8 @@ do { /* in continuation: restore BC pc, debug_call */	\
   CPE(E)        = (WamCont) BC_Frame_Sentinel
 
 #define BC_FRAME_END					\
-  CPE(E) = (WamCont) Y_SAVE_CPE(E)
+  CP = (WamCont) Y_SAVE_CPE(E);				\
+  E  = EE(E)
 
 #define Is_BC_Frame(e) (CPE(e) == (WamCont) BC_Frame_Sentinel)
 
@@ -1523,7 +1525,6 @@ bc_loop:
 
     case DEALLOCATE:
       BC_FRAME_END;
-      Pl_Deallocate();
       goto bc_loop;
 
     case CALL:
diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index fef2657..bc70d98 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -1267,7 +1267,7 @@ Pl_Scan_Choice_Point_Pred(WamWord *b, int *arity)
 static void
 GC_Clause(void)
 {
-  WamWord *base, *b, *e, *e_b, *e_b2, *e_top;
+  WamWord *base, *b, *e;
   DynScan *scan;
   DynPInf *dyn, *dyn1, **p_last_dyn;
   DynCInf *clause, *clause1;
@@ -1322,39 +1322,21 @@ GC_Clause(void)
    * if an environment corresponds to a byte-code clause (BC) (thus in use)
    * mark the corresponding dyn scan.
    */
-  b = B;
   e = E;
-  e_b = e_b2 = EB(b);
-  for(;;)
+  for (b = B; ; b = BB(b))
     {
-      e_top = (e > e_b) ? e : e_b;
-      e_top = (e_b2 > e_top) ? e_b2 : e_top; /* e_top = max(e, e_b, e_b2) */
-      if (e_top <= base)
-	break;
-      
-      clause = Pl_BC_Clause_Environment(e_top);
-#if 0
-      if (clause && e_top != e && Is_Clause_Erased(clause))
+      /* older environments of this chain are also reachable from EB(b) */
+      for (; e > b && e > base; e = EE(e))
 	{
-	  printf("OCCURS !!!!!!!!!!!!!!!!!!!!!!! %s/%d\n",
-		 pl_atom_tbl[clause->dyn->func].name, clause->dyn->arity);
+	  clause = Pl_BC_Clause_Environment(e);
+	  if (clause && clause->dyn->first_erased_cl)
+	    MARK_AS_KEEP(clause->dyn);
 	}
-#endif
-      if (clause)
-	MARK_AS_KEEP(clause->dyn);
 
-      if (e_top == e)
-	e = EE(e);
-      
-      if (e_top == e_b2)
-	e_b2 = EE(e_b2);
+      if (b <= base)
+	break;
 
-      if (e_top == e_b)
-	{
-	  b = BB(b);
-	  if (b > base)
-	    e_b = EB(b);
-	}
+      e = EB(b);
     }
 
   /*
-- 
2.43.0


From e599191b39b456cf77d1e671fa8813a43c33edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 56/58] fix: alternatives kept by PL_KEEP_FOR_PROLOG could
 return to the C call already finished

---
 src/BipsPl/bc_supp.c  |  3 +++
 src/EnginePl/engine.c | 24 +++++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/bc_supp.c b/src/BipsPl/bc_supp.c
index c894474..3fcc0ff 100644
--- a/src/BipsPl/bc_supp.c
+++ b/src/BipsPl/bc_supp.c
@@ -972,6 +972,9 @@ BC_Frame_Sentinel(void)
   printf("!!! ERROR: in BC_Frame_Sentinel !!!\n"); exit(1);
 }
 
+				/* overwrite var of engine.c */
+WamCont pl_bc_frame_sentinel = (WamCont) BC_Frame_Sentinel;
+
 #if 0
 void
 Dbg_Check_Trail(WamWord *adr_save)
diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 0c44d96..672060a 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -83,6 +83,8 @@
 
 void (*pl_init_stream_supp)();  /* overwritten by foreign if present */
 
+WamCont pl_bc_frame_sentinel;   /* overwritten by bc_supp if present */
+
 #if NB_OF_USED_MACHINE_REGS > 0
 static WamWord init_buff_regs[NB_OF_USED_MACHINE_REGS];
 #endif
@@ -416,17 +418,25 @@ Pl_Call_Prolog_Next_Sol(WamWord *query_b)
 void
 Pl_Keep_Rest_For_Prolog(WamWord *query_b)
 {
-  WamWord *b, *e, *query_e;
+  WamWord *b, *e;
+  WamCont *p_cp;
 
   for (b = B; b > query_b; b = BB(b))
-    if (CPB(b) == Adjust_CP(Call_Prolog_Success))
-      CPB(b) = CP;
+    {
+      if (CPB(b) == Adjust_CP(Call_Prolog_Success))
+	CPB(b) = CP;
 
-  query_e = EB(query_b);
+      /* environments only reachable from this choice point (E: caller's env) */
+      for (e = EB(b); e > E; e = EE(e))
+	{
+	  p_cp = &CPE(e);
+	  if (*p_cp == pl_bc_frame_sentinel) /* byte-code: see bc_supp.c */
+	    p_cp = (WamCont *) &Y(e, 0);
 
-  for (e = EB(B); e > query_e; e = EE(e))
-    if (CPE(e) == Adjust_CP(Call_Prolog_Success))
-      CPE(e) = CP;
+	  if (*p_cp == Adjust_CP(Call_Prolog_Success))
+	    *p_cp = CP;
+	}
+    }
 }
 
 
-- 
2.43.0


From a44a93f3ee015ed2be1e40a35b88d2f91ee72d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 57/58] fix: after a query that fails or throws, the foreign
 predicate returned in a wrong environment

---
 src/EnginePl/engine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 672060a..fd7cb0d 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -362,6 +362,7 @@ int
 Pl_Call_Prolog(CodePtr codep)
 {
   WamWord *query_b = B;
+  WamWord *save_E = E;
   WamCont save_CP = CP;
   WamCont save_ALTB = ALTB(query_b);
   int ret;
@@ -373,6 +374,7 @@ Pl_Call_Prolog(CodePtr codep)
   ret = Call_Next(codep);
 
   CP = save_CP;                 /* restore continuation */
+  E = save_E;                   /* and its environment (see failure and exception) */
   ALTB(query_b) = save_ALTB;    /* restore choice point */
 
   return ret;
@@ -390,6 +392,7 @@ Pl_Call_Prolog(CodePtr codep)
 int
 Pl_Call_Prolog_Next_Sol(WamWord *query_b)
 {
+  WamWord *save_E = E;
   WamCont save_CP = CP;
   WamCont save_ALTB = ALTB(query_b);
   int ret;
@@ -401,6 +404,7 @@ Pl_Call_Prolog_Next_Sol(WamWord *query_b)
   ret = Call_Next(ALTB(B));
 
   CP = save_CP;                 /* restore continuation */
+  E = save_E;                   /* and its environment (see failure and exception) */
   ALTB(query_b) = save_ALTB;    /* restore choice point */
 
   return ret;
-- 
2.43.0


From 6e18a32526df6cb8f507a405e05cd1f2fd87243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 58/58] fix: an exception already given to C by a query was
 raised again by an older catch/3 that failed

---
 src/BipsPl/throw_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/throw_c.c b/src/BipsPl/throw_c.c
index 76669d7..469b1ea 100644
--- a/src/BipsPl/throw_c.c
+++ b/src/BipsPl/throw_c.c
@@ -65,6 +65,8 @@ WamWord pl_query_exception;	/* overwritten by foreign_supp if present */
  * Function Prototypes             *
  *---------------------------------*/
 
+void Pl_Sys_Var_Put_2(WamWord var_word, WamWord term_word);	/* in flag_c.c */
+
 
 
 
@@ -86,6 +88,8 @@ Pl_Throw_2(WamWord ball_word, WamWord b_word)
     {
       Assign_B(pl_query_top_b);
       pl_query_exception = ball_word;
+				/* ball consumed: no longer pending in catch.pl */
+      Pl_Sys_Var_Put_2(Tag_INT(8), Tag_ATM(Pl_Create_Atom("$no_ball$")));
       Pl_Exit_With_Exception();
     }
 
-- 
2.43.0

