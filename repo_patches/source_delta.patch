From a0f3e8aa48c18a712494af231071b39a6ce7ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 01/35] fix: re-raise the original exception object of a failed
 Python callback

---
 libpyclingo/clingo/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..244fe03 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -74,7 +74,7 @@ def _handle_error(ret: bool, handler=None):
             and handler is not None
             and handler.error is not None
         ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+            raise handler.error[1].with_traceback(handler.error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
-- 
2.43.0


From a334bc66af0d0e05b989be48ca1b35a12a50af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 02/35] fix: use the grounding context even if its truth value
 is false

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..00c0371 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -548,8 +548,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 2e56f4f6d5507d66b56609e22445c1d712e13379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 03/35] fix: call the existing setter when assigning
 StrSequence elements

---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From e88c6c5472d037b5646e0c45ff63f93bc977c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 04/35] fix: insert into sliced sequences instead of
 overwriting elements

---
 libpyclingo/clingo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..9efd040 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,4 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        self._mut_seq.insert(self._rng[index], value)
-- 
2.43.0


From 3706d04c4b9ebcce35937f2e2c5f51fd59e9fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 05/35] fix: re-raise exceptions of Python observers from all
 calls that notify them

---
 libpyclingo/clingo/backend.py | 46 +++++++++++++++++++++++++++++------
 libpyclingo/clingo/control.py | 20 +++++++++++----
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..7c993c9 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -606,10 +606,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +623,11 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +674,11 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -694,10 +704,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -711,8 +723,10 @@ class Backend(ContextManager["Backend"]):
         literals
             List of pairs of program literals and weights.
         """
+        self._error.clear()
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +738,11 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -747,10 +765,12 @@ class Backend(ContextManager["Backend"]):
         singleton head list, respectively.
         """
         # pylint: disable=dangerous-default-value
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -776,10 +796,12 @@ class Backend(ContextManager["Backend"]):
         choice
             Whether to add a disjunctive or choice rule.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
@@ -795,6 +817,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_number,
@@ -816,6 +839,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_string,
@@ -839,6 +863,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_function,
@@ -866,6 +891,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_sequence,
@@ -889,6 +915,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_symbol,
@@ -912,6 +939,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added element.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_element,
@@ -952,6 +980,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom,
@@ -993,6 +1022,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom_with_guard,
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 00c0371..5631053 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -346,7 +346,8 @@ class Control:
 
         This function removes all minimize constraints that were previously added to the program.
         """
-        _handle_error(_lib.clingo_control_remove_minimize(self._rep))
+        self._error.clear()
+        _handle_error(_lib.clingo_control_remove_minimize(self._rep), self._error)
 
     def _update_project(
         self, atoms: Sequence[Union[Symbol, int]], append: bool
@@ -355,8 +356,10 @@ class Control:
         for i, lit in enumerate(atoms):
             p_proj[i] = self._program_atom(lit)
 
+        self._error.clear()
         _handle_error(
-            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append)
+            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append),
+            self._error,
         )
 
     def add_project(self, atoms: Sequence[Union[Symbol, int]]) -> None:
@@ -446,10 +449,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_assign_external(
                 self._rep, self._program_atom(external), val
-            )
+            ),
+            self._error,
         )
 
     def backend(self) -> Backend:
@@ -609,7 +614,10 @@ class Control:
         for i, path in enumerate(files):
             c_mem.append(_ffi.new("char[]", path.encode()))
             c_files[i] = c_mem[-1]
-        _handle_error(_lib.clingo_control_load_aspif(self._rep, c_files, len(files)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_control_load_aspif(self._rep, c_files, len(files)), self._error
+        )
 
     def register_observer(self, observer: Observer, replace: bool = False) -> None:
         """
@@ -869,10 +877,12 @@ class Control:
             a
             SAT
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_release_external(
                 self._rep, self._program_atom(external)
-            )
+            ),
+            self._error,
         )
 
     # this assumes that overloads are matched in the order they appear
-- 
2.43.0


From 23ececbae4881b0917eebb6846da883c48be9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 06/35] fix: compare theory terms, elements, and atoms only
 with objects of their type

---
 libpyclingo/clingo/theory_atoms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libpyclingo/clingo/theory_atoms.py b/libpyclingo/clingo/theory_atoms.py
index f919c77..7c575b3 100644
--- a/libpyclingo/clingo/theory_atoms.py
+++ b/libpyclingo/clingo/theory_atoms.py
@@ -80,9 +80,13 @@ class TheoryTerm:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -159,9 +163,13 @@ class TheoryElement:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -235,9 +243,13 @@ class TheoryAtom:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
-- 
2.43.0


From d7aaa0948b6e1363ac91787a12ab777505290c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 07/35] fix: keep callback data of an active search alive if
 another solve call fails

---
 libpyclingo/clingo/control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 5631053..90823f8 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1049,7 +1049,7 @@ class Control:
         self._error.clear()
         handler = _SolveEventHandler(on_model, on_unsat, on_statistics, on_finish)
         data = _CBData(handler, self._error)
-        self._handler = _ffi.new_handle(data)
+        c_handler = _ffi.new_handle(data)
 
         p_ass = _ffi.NULL
         if assumptions:
@@ -1080,11 +1080,13 @@ class Control:
                 p_ass,
                 len(assumptions),
                 _lib.pyclingo_solve_event_callback,
-                self._handler,
+                c_handler,
                 handler=data,
             ),
             data,
         )
+        # Note: must not be released while a previous search is still active
+        self._handler = c_handler
 
         if not yield_ and not async_:
             with handle:
-- 
2.43.0


From 93e75a2e5d91fba184b15e515a54f39345801a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 08/35] fix: re-raise exceptions of the callback passed to
 Theory.rewrite_ast

---
 libpyclingo/clingo/theory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..8e766cc 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -166,11 +166,11 @@ class Theory:
         """
         return self.__get(c_fun)(*args)
 
-    def __call0(self, c_fun, *args):
+    def __call0(self, c_fun, *args, handler=None):
         """
         Helper to simplify calling C functions without a return value.
         """
-        _handle_error(self.__call(c_fun, *args))
+        _handle_error(self.__call(c_fun, *args), handler)
 
     def __call1(self, c_type, c_fun, *args):
         """
@@ -269,6 +269,7 @@ class Theory:
             self._ffi.cast("clingo_ast_t*", stm._rep),
             self.__get("rewrite", "py"),
             handle,
+            handler=cb_data,
         )
 
     def register_options(self, options: ApplicationOptions) -> None:
-- 
2.43.0


From 4627bec5f117a1cf0d97050fc513cb7b3e1f14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 09/35] fix: check and normalize indices when setting and
 inserting elements of AST sequences

---
 libpyclingo/clingo/ast.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..5223024 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +859,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 82d731eb3b8ebb9d25e8d20c7db3e2024a96040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 10/35] fix: compare AST sequences with objects that are not
 sequences

---
 libpyclingo/clingo/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 5223024..87e7420 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -705,9 +705,13 @@ class ASTSequence(abc.MutableSequence):
         _lib.clingo_ast_acquire(self._rep)
 
     def __eq__(self, other):
+        if not isinstance(other, abc.Sequence):
+            return NotImplemented
         return tuple(self) == tuple(other)
 
     def __lt__(self, other):
+        if not isinstance(other, abc.Sequence):
+            return NotImplemented
         return tuple(self) < tuple(other)
 
     def __hash__(self):
-- 
2.43.0


From e40a82521f9b069c3cc8ef17a62b0622dc143780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 11/35] fix: treat assumptions over unknown atoms as false
 literals

---
 libpyclingo/clingo/control.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 90823f8..d922bf1 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1051,19 +1051,17 @@ class Control:
         data = _CBData(handler, self._error)
         c_handler = _ffi.new_handle(data)
 
-        p_ass = _ffi.NULL
-        if assumptions:
-            atoms = None
-            p_ass = _ffi.new("clingo_literal_t[]", len(assumptions))
-            for i, lit in enumerate(assumptions):
-                if isinstance(lit, int):
-                    p_ass[i] = lit
-                else:
-                    if atoms is None:
-                        atoms = self.symbolic_atoms
-                    atom = self.symbolic_atoms[lit[0]]
-                    slit = -1 if atom is None else atom.literal
-                    p_ass[i] = slit if lit[1] else -slit
+        lits = []
+        for lit in assumptions:
+            if isinstance(lit, int):
+                lits.append(lit)
+                continue
+            atom = self.symbolic_atoms[lit[0]]
+            if atom is not None:
+                lits.append(atom.literal if lit[1] else -atom.literal)
+            elif lit[1]:
+                # Note: unknown atoms are false; there is no literal for them
+                lits.extend((1, -1))
 
         mode = 0
         if yield_:
@@ -1077,8 +1075,8 @@ class Control:
                 _lib.clingo_control_solve,
                 self._rep,
                 mode,
-                p_ass,
-                len(assumptions),
+                lits,
+                len(lits),
                 _lib.pyclingo_solve_event_callback,
                 c_handler,
                 handler=data,
-- 
2.43.0


From 5a160a30c1a50ac6b9c34316ea813cb1f96b5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 12/35] fix: check results of all engine calls in the C++ API

---
 libclingo/clingo.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..136b471 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2603,25 +2603,25 @@ inline bool operator>=(Symbol a, Symbol b) { return !clingo_symbol_is_less_than(
 
 inline Symbol SymbolicAtom::symbol() const {
     clingo_symbol_t ret = 0;
-    clingo_symbolic_atoms_symbol(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_symbol(atoms_, range_, &ret));
     return Symbol(ret);
 }
 
 inline clingo_literal_t SymbolicAtom::literal() const {
     clingo_literal_t ret = 0;
-    clingo_symbolic_atoms_literal(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_literal(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_fact() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_fact(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_fact(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_external() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_external(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_external(atoms_, range_, &ret));
     return ret;
 }
 
@@ -2674,7 +2674,7 @@ inline SymbolicAtomIterator SymbolicAtoms::find(Symbol atom) const {
 
 inline std::vector<Signature> SymbolicAtoms::signatures() const {
     size_t n = 0;
-    clingo_symbolic_atoms_signatures_size(atoms_, &n);
+    Detail::handle_error(clingo_symbolic_atoms_signatures_size(atoms_, &n));
     Signature sig("", 0);
     std::vector<Signature> ret;
     ret.resize(n, sig);
@@ -3601,7 +3601,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
@@ -4377,7 +4377,7 @@ inline SymbolicAtoms Control::symbolic_atoms() const {
 
 inline TheoryAtoms Control::theory_atoms() const {
     clingo_theory_atoms_t const *ret = nullptr;
-    clingo_control_theory_atoms(*impl_, &ret);
+    Detail::handle_error(clingo_control_theory_atoms(*impl_, &ret));
     return TheoryAtoms{ret};
 }
 
-- 
2.43.0


From 0ac220e38025e33e8e85ebddb1d6f15f6aaae8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 13/35] fix: define declared members of the C++ API that could
 not be used

---
 libclingo/clingo.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 136b471..1e4d646 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -204,8 +204,7 @@ template <class T> class Optional {
     T &&operator*() && { return std::move(*get()); }
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
-        clear();
-        data_(new T{std::forward<Args>(x)...});
+        data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
@@ -4067,6 +4066,10 @@ inline char const *StringVector::operator[](size_t idx) const {
 
 inline ValuePointer<char const *> StringVector::at(size_t idx) const { return operator[](idx); }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline void StringVector::push_back(char const *str) { insert(end(), str); }
 
 inline void StringVector::pop_back() { erase(end() - 1); }
@@ -4096,6 +4099,11 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
     std::swap(builder_, builder.builder_);
 }
 
+inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexcept {
+    std::swap(builder_, builder.builder_);
+    return *this;
+}
+
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
         Detail::handle_error(clingo_program_builder_end(builder_));
-- 
2.43.0


From 611fb1414a3e84d53c787ea4b32e8992297d4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 14/35] fix: pass the control object on to the AST parsing
 functions

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1e4d646..3db338e 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4134,7 +4134,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4158,7 +4158,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From 4b183ca6033dc3ce946c0a3b7e7bd911436b0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 15/35] fix: copy AST arrays between different attributes of
 the same node

---
 libclingo/clingo.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 3db338e..1bdd334 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2199,6 +2199,7 @@ class NodeVector {
     void clear();
     Node &ast();
     Node const &ast() const;
+    clingo_ast_attribute_t attribute() const { return attr_; }
 
   private:
     Node ast_;
@@ -2244,6 +2245,7 @@ class StringVector {
     void clear();
     Node &ast();
     Node const &ast() const;
+    clingo_ast_attribute_t attribute() const { return attr_; }
 
   private:
     Node ast_;
@@ -3781,7 +3783,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
             auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attribute() != b.attribute()) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
@@ -3793,7 +3795,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
             auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attribute() != b.attribute()) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
-- 
2.43.0


From 5542b3fa7a87e9329e091bc90d739b2405022697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 16/35] fix: do not leak the implementation of a control object
 that cannot be created

---
 libclingo/clingo.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1bdd334..17f2750 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4221,15 +4221,17 @@ struct Control::Impl {
 };
 
 inline Clingo::Control::Control(StringSpan args, Logger logger, unsigned message_limit)
-    : impl_(new Clingo::Control::Impl(std::move(logger))) {
+    : impl_(nullptr) {
+    auto impl = std::make_unique<Impl>(std::move(logger));
     clingo_logger_t f = [](clingo_warning_t code, char const *msg, void *data) {
         try {
             (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
         } catch (...) {
         } // NOLINT(bugprone-empty-catch)
     };
-    Detail::handle_error(clingo_control_new(args.begin(), args.size(), impl_->logger ? f : nullptr,
-                                            impl_->logger ? &impl_->logger : nullptr, message_limit, &impl_->ctl));
+    Detail::handle_error(clingo_control_new(args.begin(), args.size(), impl->logger ? f : nullptr,
+                                            impl->logger ? &impl->logger : nullptr, message_limit, &impl->ctl));
+    impl_ = impl.release();
 }
 
 inline Control::Control(clingo_control_t *ctl, bool owns) : impl_(new Impl(ctl, owns)) {}
-- 
2.43.0


From c0cdc16c06fb06ffd64ecfb12684737d2c3aec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 17/35] fix: keep the value of an Optional assigned to itself

---
 libclingo/clingo.hh | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 17f2750..f411243 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -191,7 +188,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
-- 
2.43.0


From e29000d6f4e750b91b930abf2b48bb3b55270c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 18/35] fix: close handles only once even if closing them fails

---
 libclingo/clingo.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index f411243..71cc332 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3206,8 +3206,9 @@ inline SolveHandle::~SolveHandle() noexcept(false) { close(); }
 
 inline void SolveHandle::close() {
     if (iter_ != nullptr) {
-        Detail::handle_error(clingo_solve_handle_close(iter_), *exception_);
+        auto *iter = iter_;
         iter_ = nullptr;
+        Detail::handle_error(clingo_solve_handle_close(iter), *exception_);
     }
 }
 
@@ -3228,8 +3229,9 @@ inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_));
+        auto *backend = backend_;
         backend_ = nullptr;
+        Detail::handle_error(clingo_backend_end(backend));
     }
 }
 
@@ -4104,8 +4106,9 @@ inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexc
 
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
-        Detail::handle_error(clingo_program_builder_end(builder_));
+        auto *builder = builder_;
         builder_ = nullptr;
+        Detail::handle_error(clingo_program_builder_end(builder));
     }
 }
 
-- 
2.43.0


From 69e2b7a85d7be0985c5267a78f0e10b8d8571f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 19/35] fix: re-throw exceptions of observers from backend and
 external operations in the C++ API

---
 libclingo/clingo.hh | 93 +++++++++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 28 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 71cc332..871918b 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -1563,9 +1563,15 @@ enum class TheorySequenceType {
     Set = clingo_theory_sequence_type_set,
 };
 
+namespace Detail {
+
+class AssignOnce;
+
+} // namespace Detail
+
 class Backend {
   public:
-    explicit Backend(clingo_backend_t *backend);
+    explicit Backend(clingo_backend_t *backend, Detail::AssignOnce *exception = nullptr);
     Backend(Backend const &backend) = delete;
     Backend(Backend &&backend) noexcept;
     Backend &operator=(Backend const &backend) = delete;
@@ -1598,6 +1604,7 @@ class Backend {
 
   private:
     clingo_backend_t *backend_ = nullptr;
+    Detail::AssignOnce *exception_ = nullptr;
 };
 
 // {{{1 statistics
@@ -2437,7 +2444,17 @@ class AssignOnce {
 
 inline void handle_error(bool ret, AssignOnce &exc) {
     if (!ret) {
+        std::exception_ptr ptr = *exc;
+        exc.reset();
+        handle_error(ret, ptr);
+    }
+}
+
+inline void handle_error(bool ret, AssignOnce *exc) {
+    if (exc != nullptr) {
         handle_error(ret, *exc);
+    } else {
+        handle_error(ret);
     }
 }
 
@@ -3218,11 +3235,13 @@ inline Backend::Backend(Backend &&backend) noexcept { *this = std::move(backend)
 
 inline Backend &Backend::operator=(Backend &&backend) noexcept {
     std::swap(backend_, backend.backend_);
+    std::swap(exception_, backend.exception_);
     return *this;
 }
 
-inline Backend::Backend(clingo_backend_t *backend) : backend_{backend} {
-    Detail::handle_error(clingo_backend_begin(backend_));
+inline Backend::Backend(clingo_backend_t *backend, Detail::AssignOnce *exception)
+    : backend_{backend}, exception_{exception} {
+    Detail::handle_error(clingo_backend_begin(backend_), exception_);
 }
 
 inline Backend::~Backend() noexcept(false) { close(); }
@@ -3231,101 +3250,112 @@ inline void Backend::close() {
     if (backend_ != nullptr) {
         auto *backend = backend_;
         backend_ = nullptr;
-        Detail::handle_error(clingo_backend_end(backend));
+        Detail::handle_error(clingo_backend_end(backend), exception_);
     }
 }
 
 inline void Backend::rule(bool choice, AtomSpan head, LiteralSpan body) {
-    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
+    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()),
+                         exception_);
 }
 
 inline void Backend::weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) {
     Detail::handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
                                                     Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
-                                                    body.size()));
+                                                    body.size()),
+                         exception_);
 }
 
 inline void Backend::minimize(weight_t prio, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_minimize(
-        backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()));
+    Detail::handle_error(clingo_backend_minimize(backend_, prio,
+                                                 Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
+                                                 body.size()),
+                         exception_);
 }
 
 inline void Backend::project(AtomSpan atoms) {
-    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
+    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()), exception_);
 }
 
 inline void Backend::external(atom_t atom, ExternalType type) {
-    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
+    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)),
+                         exception_);
 }
 
 inline void Backend::assume(LiteralSpan lits) {
-    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
+    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()), exception_);
 }
 
 inline void Backend::heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) {
     Detail::handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
-                                                  priority, condition.begin(), condition.size()));
+                                                  priority, condition.begin(), condition.size()),
+                         exception_);
 }
 
 inline void Backend::acyc_edge(int node_u, int node_v, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
+    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()),
+                         exception_);
 }
 
 inline atom_t Backend::add_atom() {
     clingo_atom_t ret = 0;
-    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
+    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret), exception_);
     return ret;
 }
 
 inline atom_t Backend::add_atom(Symbol symbol) {
     clingo_atom_t ret = 0;
     clingo_symbol_t sym = symbol.to_c();
-    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
+    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_number(int number) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
+    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_string(char const *string) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
+    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_sequence(TheorySequenceType type, IdSpan elements) {
     clingo_id_t ret = 0;
     Detail::handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
-                                                             elements.data(), elements.size(), &ret));
+                                                             elements.data(), elements.size(), &ret),
+                         exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_function(char const *name, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
+    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret),
+                         exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_symbol(Symbol symbol) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
+    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_element(IdSpan tuple, LiteralSpan condition) {
     clingo_id_t ret = 0;
     Detail::handle_error(
-        clingo_backend_theory_element(backend_, tuple.data(), tuple.size(), condition.begin(), condition.size(), &ret));
+        clingo_backend_theory_element(backend_, tuple.data(), tuple.size(), condition.begin(), condition.size(), &ret),
+        exception_);
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements) {
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                    elements.begin(), elements.size(), &ret));
+                                                    elements.begin(), elements.size(), &ret),
+                         exception_);
     return ret;
 }
 
@@ -3333,14 +3363,16 @@ inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements, char const *op
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
                                                                elements.begin(), elements.size(), operator_name,
-                                                               right_hand_side_id, &ret));
+                                                               right_hand_side_id, &ret),
+                         exception_);
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements) {
     atom_t ret = 0;
     Detail::handle_error(
-        clingo_backend_theory_atom(backend_, atom_id_or_zero, term_id, elements.begin(), elements.size(), &ret));
+        clingo_backend_theory_atom(backend_, atom_id_or_zero, term_id, elements.begin(), elements.size(), &ret),
+        exception_);
     return ret;
 }
 
@@ -3349,7 +3381,8 @@ inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan el
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
                                                                elements.size(), operator_name, right_hand_side_id,
-                                                               &ret));
+                                                               &ret),
+                         exception_);
     return ret;
 }
 
@@ -4357,7 +4390,9 @@ inline SolveHandle Control::solve(LiteralSpan assumptions, SolveEventHandler *ha
 }
 
 inline void Control::assign_external(literal_t literal, TruthValue value) {
-    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)),
+                         impl_->ptr);
 }
 
 inline void Control::assign_external(Symbol atom, TruthValue value) {
@@ -4369,7 +4404,8 @@ inline void Control::assign_external(Symbol atom, TruthValue value) {
 }
 
 inline void Control::release_external(literal_t literal) {
-    Detail::handle_error(clingo_control_release_external(*impl_, literal));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_release_external(*impl_, literal), impl_->ptr);
 }
 
 inline void Control::release_external(Symbol atom) {
@@ -4666,7 +4702,8 @@ inline bool Control::enable_cleanup() const { return clingo_control_get_enable_c
 inline Backend Control::backend() {
     clingo_backend_t *ret = nullptr;
     Detail::handle_error(clingo_control_backend(*impl_, &ret));
-    return Backend{ret};
+    impl_->ptr.reset();
+    return Backend{ret, &impl_->ptr};
 }
 
 inline Configuration Control::configuration() {
-- 
2.43.0


From 1a877464636154e37449f77fa78ee56d4c605778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 20/35] fix: do not use error messages as format strings in the
 Lua module

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..d5f4f76 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From bb7d820ce8c52ccc94a15dadae123801a4fbfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 21/35] fix: call the on_finish handler when solving finished
 in the Lua module

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index d5f4f76..1bdb38c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From 06b7317f64bedea13373ce3b43cd7bda3d3cb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 22/35] fix: respect the freeze argument of
 PropagateInit:add_literal in the Lua module

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1bdb38c..c5f59d7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From 7bb8a3ba1b8c696e74e8bbbbc37088b6ce1395af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 23/35] fix: set the finalizer of controls in the Lua module
 after their construction

---
 libluaclingo/luaclingo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c5f59d7..9bf872d 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3615,11 +3615,14 @@ struct ControlWrap : Object<ControlWrap> {
     template <class F> static int new_(lua_State *L, F f) {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
+        lua_rawseti(L, -2, 1);                                              // -1
+        protect(L, [self, f]() { f(self); });
+        // Note: the finalizer must not run before the object is constructed
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
+        lua_rawgeti(L, -1, 1);           // +1
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
-        lua_rawseti(L, -2, 1);           // -1
-        protect(L, [self, f]() { f(self); });
+        lua_pop(L, 1);                   // -1
         luaL_getmetatable(L, typeName); // +1
         lua_setmetatable(L, -2);        // -1
         return 1;
-- 
2.43.0


From bc1b22fdcdbc278e00ec01470845d05161319855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 24/35] fix: raise an error if a string is expected in the Lua
 module

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 9bf872d..33d58a9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -369,6 +369,9 @@ void luaToCpp(lua_State *L, int index, bool &x) { x = lua_toboolean(L, index) !=
 
 void luaToCpp(lua_State *L, int index, std::string &x) {
     char const *str = lua_tostring(L, index);
+    if (!str) {
+        luaL_error(L, "string expected");
+    }
     PROTECT(x = str);
 }
 
-- 
2.43.0


From 1800a83287a839c985e281c296f4a6268adf4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 25/35] fix: do not drop assumptions over unknown atoms in the
 Lua module

---
 libluaclingo/luaclingo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 33d58a9..befe2eb 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3444,6 +3444,10 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // the assumptions are contradictory
+                    PROTECT(handle->ass->emplace_back(1));
+                    PROTECT(handle->ass->emplace_back(-1));
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From 6b1481000c2d7458b0d30d411b03f42bfb278121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 26/35] fix: reject numbers that are not representable in the
 Lua module

---
 libluaclingo/luaclingo.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index befe2eb..c8b88c2 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -375,12 +375,21 @@ void luaToCpp(lua_State *L, int index, std::string &x) {
     PROTECT(x = str);
 }
 
+// converts a lua integer raising a lua error if it is not representable
+template <class T> T luaToInt(lua_State *L, lua_Integer n) {
+    T x = static_cast<T>(n);
+    if (static_cast<lua_Integer>(x) != n || (x < 0) != (n < 0)) {
+        luaL_error(L, "number out of range");
+    }
+    return x;
+}
+
 template <class T>
 void luaToCpp(lua_State *L, int index, T &x, typename std::enable_if<std::is_integral<T>::value>::type * = nullptr) {
     if (lua_type(L, index) != LUA_TNUMBER) {
         luaL_error(L, "number expected");
     }
-    x = numeric_cast<T>(lua_tointeger(L, index));
+    x = luaToInt<T>(L, luaL_checkinteger(L, index));
 }
 
 struct symbol_wrapper {
@@ -978,7 +987,7 @@ struct Term : Object<Term> {
     }
     static int newNumber(lua_State *L) {
         clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
+        clingo_symbol_create_number(luaToInt<int>(L, luaL_checkinteger(L, 1)), &sym);
         return Term::new_(L, sym);
     }
     static int newString(lua_State *L) {
@@ -1100,7 +1109,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
         }
         case LUA_TNUMBER: {
             clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
+            clingo_symbol_create_number(luaToInt<int>(L, luaL_checkinteger(L, idx)), &ret);
             return ret;
         }
         case LUA_TUSERDATA: {
-- 
2.43.0


From 79585759923d876778bb761ba4f9ac10fa6af165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 27/35] fix: check the lower bound of trail indices in the Lua
 module

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c8b88c2..1d48697 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2241,7 +2241,7 @@ struct Trail : Object<Trail> {
     static int pairs_iter_(lua_State *L) {
         auto &self = get_self(L);
         auto idx = numeric_cast<int32_t>(luaL_checkinteger(L, 2));
-        if (idx < self.size_(L)) {
+        if (0 <= idx && idx < self.size_(L)) {
             lua_pushinteger(L, idx + 1);
             lua_pushnumber(L, self.at_(L, idx));
             return 2;
@@ -2278,7 +2278,7 @@ struct Trail : Object<Trail> {
     static int at(lua_State *L) {
         auto &self = get_self(L);
         auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
-        if (index < self.size_(L)) {
+        if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
         }
-- 
2.43.0


From c221cc4887471f92d107d095cda8cc8b0a7b1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 28/35] fix: check the stack before pushing unboundedly many
 values in the Lua module

---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1d48697..1e4cdb4 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1148,6 +1148,7 @@ int luacall_(lua_State *L) {
     } else {
         lua_getglobal(L, args.name);
     }
+    luaL_checkstack(L, numeric_cast<int>(args.size) + LUA_MINSTACK, "too many arguments");
     for (auto it = args.arguments, ie = it + args.size; it != ie; ++it) {
         Term::new_(L, *it);
     }
@@ -1688,6 +1689,7 @@ luaL_Reg const Model::meta[] = {{"__tostring", toString}, {"symbols", atoms},
 // {{{1 wrap Statistics
 
 int newStatistics(lua_State *L, clingo_statistics_t const *stats, uint64_t key) {
+    luaL_checkstack(L, LUA_MINSTACK, "statistics too deep");
     switch (call_c(L, clingo_statistics_type, stats, key)) {
         case clingo_statistics_type_value: {
             lua_pushnumber(L, numeric_cast<lua_Number>(call_c(L, clingo_statistics_value_get, stats, key))); // +1
-- 
2.43.0


From 00757aa05ea23de91bb14e5d6d48168a1c84ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 29/35] fix: keep the traceback if string.gsub is not available
 in the Lua module

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1e4cdb4..4f2bb32 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -154,7 +154,7 @@ static int luaTraceback(lua_State *L) {
     }
     lua_getfield(L, -1, "gsub");
     if (!lua_isfunction(L, -1)) {
-        lua_pop(L, 1);
+        lua_pop(L, 2);
         return 1;
     }
     lua_pushvalue(L, -3);
-- 
2.43.0


From 81effdf5f917917f2532e6430e7fb161b0fc0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 30/35] fix: return nil for the keys of options that are not
 maps in the Lua module

---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 4f2bb32..a6a7e5f 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1928,6 +1928,8 @@ struct Configuration : Object<Configuration> {
                 lua_pushstring(L, call_c(L, clingo_configuration_map_subkey_name, self.conf, self.key, i));
                 lua_rawseti(L, -2, numeric_cast<int>(i + 1));
             }
+        } else {
+            lua_pushnil(L);
         }
         return 1;
     }
-- 
2.43.0


From e0e034e6c16b5728aa6e5846ada64e0483317529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 31/35] fix: look up observer methods in protected mode in the
 Lua module

---
 libluaclingo/luaclingo.cc | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index a6a7e5f..9f46b3b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3199,10 +3199,12 @@ class GroundProgramObserver {
     }
 
     template <class... T> static int l_call(lua_State *L) {
-        lua_pushvalue(L, 1);
-        lua_pushvalue(L, 2);
-        l_push_args<0, T...>(L, 1);
-        lua_call(L, (sizeof...(T) + 1), 0);
+        lua_getfield(L, 1, static_cast<char const *>(lua_touserdata(L, 2)));
+        if (!lua_isnil(L, -1)) {
+            lua_pushvalue(L, 1);
+            l_push_args<0, T...>(L, 1);
+            lua_call(L, (sizeof...(T) + 1), 0);
+        }
         return 0;
     }
 
@@ -3220,22 +3222,17 @@ class GroundProgramObserver {
         int observer = lua_gettop(self->L);
         lua_pushcfunction(self->L, luaTraceback); // +1
         int handler = lua_gettop(self->L);
-        lua_getfield(self->L, -2, fun); // +1
-        if (!lua_isnil(self->L, -1)) {
-            int function = lua_gettop(self->L);
-            int n = sizeof...(Args);
-            if (!lua_checkstack(self->L, std::max(3, n))) {
-                clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
-                return false;
-            }
-            push_args(self, args...);                      // +n
-            lua_pushcclosure(self->L, l_call<Args...>, n); // +1-n
-            lua_pushvalue(self->L, function);              // +1
-            lua_pushvalue(self->L, observer);              // +1
-            auto ret = lua_pcall(self->L, 2, 0, handler);
-            return handle_lua_error(self->L, loc, msg, ret);
+        int n = sizeof...(Args);
+        if (!lua_checkstack(self->L, std::max(3, n))) {
+            clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
+            return false;
         }
-        return true;
+        push_args(self, args...);                                // +n
+        lua_pushcclosure(self->L, l_call<Args...>, n);           // +1-n
+        lua_pushvalue(self->L, observer);                        // +1
+        lua_pushlightuserdata(self->L, const_cast<char *>(fun)); // +1
+        auto ret = lua_pcall(self->L, 2, 0, handler);
+        return handle_lua_error(self->L, loc, msg, ret);
     }
 
   private:
-- 
2.43.0


From 4ab81844f140405d1c064f956691c340f71b4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 32/35] fix: look up functions in protected mode in the Lua
 module

---
 libluaclingo/luaclingo.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 9f46b3b..31f5c9c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3928,20 +3928,28 @@ struct LuaScriptC {
         auto &self = *static_cast<LuaScriptC *>(data);
         return luacall(self.L, loc, 0, name, arguments, size, symbol_callback, symbol_callback_data);
     }
+    static int callable_(lua_State *L) {
+        lua_getglobal(L, static_cast<char const *>(lua_touserdata(L, 1)));
+        *static_cast<bool *>(lua_touserdata(L, 2)) = lua_type(L, -1) == LUA_TFUNCTION;
+        return 0;
+    }
     static bool callable(char const *name, bool *ret, void *data) {
         auto &self = *static_cast<LuaScriptC *>(data);
         if (!self.L) {
             *ret = false;
             return true;
         }
-        if (!lua_checkstack(self.L, 2)) {
+        if (!lua_checkstack(self.L, 4)) {
             clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
             return false;
         }
         LuaClear lc(self.L);
-        lua_getglobal(self.L, name);
-        *ret = lua_type(self.L, -1) == LUA_TFUNCTION;
-        return true;
+        lua_pushcfunction(self.L, luaTraceback);
+        lua_pushcfunction(self.L, callable_);
+        lua_pushlightuserdata(self.L, const_cast<char *>(name));
+        lua_pushlightuserdata(self.L, ret);
+        auto code = lua_pcall(self.L, 2, 0, -4);
+        return handle_lua_error(self.L, name, "looking up function failed", code);
     }
     static bool main(clingo_control_t *ctl, void *data) {
         auto &self = *static_cast<LuaScriptC *>(data);
-- 
2.43.0


From ab1b7f06c1fa1447a50dfe1cbdbe816789468e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 33/35] fix: raise an error when using closed solve handles in
 the Lua module

---
 libluaclingo/luaclingo.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 31f5c9c..18f20e9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1774,6 +1774,14 @@ struct SolveHandle : Object<SolveHandle> {
     }
     static int gc(lua_State *L) { return close_(L, *(SolveHandle *)lua_touserdata(L, 1)); }
     static int close(lua_State *L) { return close_(L, get_self(L)); }
+    // the handle of the search, which must not have been closed yet
+    static clingo_solve_handle_t *get_handle(lua_State *L, int offset = 1) {
+        auto *handle = get_self(L, offset).handle;
+        if (!handle) {
+            luaL_error(L, "solve handle already closed");
+        }
+        return handle;
+    }
     static int close_(lua_State *L, SolveHandle &self) {
         if (self.handle) {
             auto h = self.handle;
@@ -1783,9 +1791,9 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int next(lua_State *L) {
-        auto &handle = get_self(L, lua_upvalueindex(1));
-        call_c(L, clingo_solve_handle_resume, handle.handle);
-        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle.handle);
+        auto *handle = get_handle(L, lua_upvalueindex(1));
+        call_c(L, clingo_solve_handle_resume, handle);
+        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle);
         if (model) {
             Model::new_(L, model);
         } else {
@@ -1800,18 +1808,15 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int get(lua_State *L) {
-        auto &self = get_self(L);
-        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, self.handle));
+        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, get_handle(L)));
         return 1;
     }
     static int resume(lua_State *L) {
-        auto &self = get_self(L);
-        call_c(L, clingo_solve_handle_resume, self.handle);
+        call_c(L, clingo_solve_handle_resume, get_handle(L));
         return 0;
     }
     static int cancel(lua_State *L) {
-        auto &self = get_self(L);
-        handle_c_error(L, clingo_solve_handle_cancel(self.handle));
+        handle_c_error(L, clingo_solve_handle_cancel(get_handle(L)));
         return 0;
     }
     static int on_model_(lua_State *L) {
@@ -1825,7 +1830,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int core(lua_State *L) {
-        auto core = call_c(L, clingo_solve_handle_core, get_self(L).handle);
+        auto core = call_c(L, clingo_solve_handle_core, get_handle(L));
         if (core.first == nullptr) {
             lua_pushnil(L); // +1
         } else {
-- 
2.43.0


From b8ecb0fc70b968f31c7a1b94e8e049ff7d8e14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 34/35] fix: support propagators without init method in the Lua
 module

---
 libluaclingo/luaclingo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 18f20e9..ee2772b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3688,7 +3688,8 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(T);
 
         clingo_propagator_t propagator = {
-            hasField(L, "init", 2) ? Propagator::init : nullptr,
+            // Note: also sets up the execution threads for the functions below
+            Propagator::init,
             hasField(L, "propagate", 2) ? Propagator::propagate : nullptr,
             hasField(L, "undo", 2) ? Propagator::undo : nullptr,
             hasField(L, "check", 2) ? Propagator::check : nullptr,
-- 
2.43.0


From 38a037e568ebf323f2939a4d0f2cb3d0c0c3be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 35/35] fix: do not leave metatables on the stack when loading
 the Lua module

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index ee2772b..bd80dee 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -190,6 +190,7 @@ void lua_regMeta(lua_State *L, char const *name, luaL_Reg const *funs, lua_CFunc
         lua_pushcfunction(L, newindexfun);
         lua_rawset(L, -3);
     }
+    lua_pop(L, 1);
 }
 
 template <typename T> struct Object {
-- 
2.43.0

