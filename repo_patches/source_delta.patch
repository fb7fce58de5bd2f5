From 144f819de435b1a9ad28d26a834a80d40d4e8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 01/35] fix: mask signed fields when assembling so they cannot
 spill into their neighbours

---
 peak/assembler/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..8e2b75e 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -268,8 +268,11 @@ def _field(isa : tp.Type[AbstractBitVector]):
 
     layout = {}
 
+    mask = (1 << width) - 1
+
     def assembler(inst):
-        return int(inst)
+        # int of a signed value may be negative
+        return int(inst) & mask
 
     def disassembler(opcode):
         return isa(opcode)
-- 
2.43.0


From d8396fdb95d4e19f5d54f7a16e4f64787dd4c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 02/35] fix: assemble negative signed constants as any
 bitvector type

---
 peak/assembler2/assembler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..27a2518 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -369,6 +369,10 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
+        if isinstance(inst, BitVector):
+            # int of a signed value may be negative, which
+            # not every bv_type accepts
+            inst = inst.as_uint()
         return bv_type[width](inst)
 
     def from_fields(v):
-- 
2.43.0


From df5e13fd5e93f5dbe02a8dc54c6e829aca119f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 03/35] fix: disassemble_tag on invalid and on zero width tags

---
 peak/assembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 8e2b75e..0a3fba5 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,8 +74,8 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
-        return self._tag_dsm(tag)
+            raise ValueError(f'invalid tag: {tag}')
+        return self._tag_dsm(tag.as_uint())
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From 1a24415b20d863b78892dfe9b2772ea3df8677b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 04/35] fix: assemble sum values whose type is a subtype of
 another alternative

---
 peak/assembler/assembler.py  | 4 ++--
 peak/assembler2/assembler.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 0a3fba5..1fba0f6 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -218,12 +218,12 @@ def _sum(isa: tp.Type[Sum]):
 
     def assemble(inst: isa) -> int:
         for k, v in inst.value_dict.items():
-            if v is not None:
+            # a value also matches the alternatives its type inherits from
+            if v is not None and name_to_field[k] == type(v):
                 break
         else:
             raise AssertionError(f'Unreachable code, {inst} has no value')
 
-        assert name_to_field[k] == type(v)
         field = type(v)
         payload = Assembler(field)._asm(v)
         tag = name_to_tag[k]
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 27a2518..5d486be 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -282,12 +282,12 @@ def _sum(isa: tp.Type[Sum]):
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector[width]:
         for k, v in inst.value_dict.items():
-            if v is not None:
+            # a value also matches the alternatives its type inherits from
+            if v is not None and name_to_field[k] == type(v):
                 break
         else:
             raise AssertionError(f'Unreachable code, {inst} has no value')
 
-        assert name_to_field[k] == type(v)
         field = type(v)
         payload = Assembler(field).assemble(v, bv_type)
         payload = _extend_to_width(payload, payload_width)
-- 
2.43.0


From 393c8bdb8765cefd0b20988353aafdb7122a49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 05/35] fix: opcode validity of enums with several ranges of
 codes

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
-- 
2.43.0


From 5c937eb8ddd9a1f29458528639ed1a56fedb5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 06/35] fix: do not share opcode validators between different
 widths

---
 peak/assembler/assembler_util.py  | 10 ++++++----
 peak/assembler2/assembler_util.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 707d467..06d105a 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the width decides which bounds and one hot values need checking
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 707d467..06d105a 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the width decides which bounds and one hot values need checking
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From 0b7436d32c172afbf9a4b1e854745f738ffff8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 07/35] fix: compose values that have fields of width 0

---
 peak/assembler/assembled_adt.py | 5 ++++-
 peak/assembler2/assembler.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..6aefec6 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -38,12 +38,15 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # a field of width 0 (e.g. an enum with a single code)
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 5d486be..73e8984 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -73,7 +73,7 @@ def _create_from_layout(width, layout, field_bvs):
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
@@ -88,6 +88,9 @@ def _create_from_layout(width, layout, field_bvs):
 
     slots = [T[1]() for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # a field of width 0 (e.g. an enum with a single code)
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From 9d8ae50930d524c2b5ff2316ff9687a4ecc728bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 08/35] fix: compose assembled values from signed and unsigned
 fields

---
 peak/assembler/assembled_adt.py  | 4 +++-
 peak/assembler2/assembled_adt.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 6aefec6..2552c45 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -48,7 +48,9 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             # a field of width 0 (e.g. an enum with a single code)
             continue
         # need to add None to keep the indexing consistent
-        slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
+        # signed and unsigned fields are stored as plain bits
+        field_bv = bv_type[hi - low](_as_bv(field_bvs[field_name]))
+        slots[low:hi] = field_bv, *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..3855155 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -176,7 +176,8 @@ class AssembledADT(metaclass=AssembledADTMeta):
     def from_fields(cls, *args, **kwargs):
         def _as_bv(v):
             if isinstance(v, AbstractBitVector):
-                bv_value = v
+                # signed and unsigned fields are stored as plain bits
+                bv_value = cls.bv_type[v.size](v)
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
             elif isinstance(v, AssembledADT):
-- 
2.43.0


From e31c4f61f05abed3545621332e0fd06da351ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 09/35] fix: pad composed sum values with zeros in every family

---
 peak/assembler2/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 73e8984..164d1d3 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,8 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    # pad with zeros, as assemble does: T[1]() is a free variable for SMT
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         if low == hi:
             # a field of width 0 (e.g. an enum with a single code)
-- 
2.43.0


From fcd95301f6846ba456aea0e0107a3f972f52f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 10/35] fix: construct sums from (alternative, value) in
 PyFamily like in every other family

---
 peak/family.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..298447e 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -8,6 +8,7 @@ from ast_tools import SymbolTable
 import hwtypes
 from hwtypes.modifiers import strip_modifiers
 from hwtypes import Product
+from hwtypes.adt import Sum, TaggedUnion
 import magma as m
 
 from .assembler import Assembler
@@ -278,6 +279,11 @@ class PyFamily(_RegFamily):
         return adt_t
 
     def get_constructor(self, adt_t):
+        if issubclass(adt_t, Sum) and not issubclass(adt_t, TaggedUnion):
+            # called as in the other families: constructor(field, value)
+            def constructor(T, value):
+                return adt_t(value)
+            return constructor
         return adt_t
 
     def assemble(self, locals, globals, **kwargs):
-- 
2.43.0


From 8fa658782ad3e1112a886f7a5a88f04d8da099bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 11/35] fix: families of different classes are not equal

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 298447e..b92f209 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -36,7 +36,7 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return True
         else:
             return NotImplemented
@@ -114,7 +114,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -147,7 +147,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From 573c2fe8681581530c987f2e91bd224d9091a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/35] fix: compare and compose hardware values whose
 directions differ

---
 peak/assembler/assembled_adt.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 2552c45..46c0337 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -358,6 +358,23 @@ class MAADTMeta(AssembledADTMeta, m.MagmaProtocolMeta):
 class MagmaADT(AssembledADT, m.MagmaProtocol, metaclass=MAADTMeta):
     _get_magma_value_ = AssembledADT._to_bitvector_
 
+    # Values of one type may have different directions (e.g. the value of a
+    # port and a constructed value)
+    @classmethod
+    def _undirect(cls, value):
+        if isinstance(value, MagmaADT) and type(value).fields[:-1] == cls.fields[:-1]:
+            return value._value_
+        else:
+            return value
+
+    def __init__(self, adt):
+        super().__init__(self._undirect(adt))
+
+    def __eq__(self, other):
+        return super().__eq__(self._undirect(other))
+
+    __hash__ = AssembledADT.__hash__
+
 
 class AssembledADTRecursor(metaclass=abc.ABCMeta):
     def __call__(self, aadt_t, *args, **kwargs):
-- 
2.43.0


From 1bed442983f058c21a04d475762676d83cf6a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 13/35] fix: record keyword inputs of black boxes in
 declaration order

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..f78c232 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[name] for name in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From 47d91b1f9d5a4b383f5b4f03edec555500b7629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 14/35] fix: SMTForms of a tagged union value reads
 alternatives by their name

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..ca88ece 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From 253088bf2a8f9b475a767d032819be215cebf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 15/35] fix: SimplifyBinding keeps an unbound alternative of a
 union unbound

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index ca88ece..dcc4c1c 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -275,7 +275,7 @@ class SimplifyBinding(AssembledADTRecursor):
         simplified_binding = self(sub_aadt_t, sub_binding)
 
         #Completely simplified if only one binding and ir_path is a value instead of a path
-        if len(simplified_binding)==1 and not isinstance(simplified_binding[0][0], tuple):
+        if len(simplified_binding)==1 and not (isinstance(simplified_binding[0][0], tuple) or simplified_binding[0][0] is Unbound):
             sub_value, arch_path = simplified_binding[0]
             assert arch_path == ()
             value = builder(sub_field, sub_value)
-- 
2.43.0


From 0d6dcc8f40b47ed95d1f37c9d44f210f89d8dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 16/35] fix: a path constrained to several values gets one of
 them in the rewrite rule

---
 peak/mapper/mapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..c72c700 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -844,7 +844,14 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            if arch_path in am.const_paths:
+                var = am.input_varmap[arch_path]
+            else:
+                # Universally quantified over its constraints, so the solver
+                # chose no value: the rule holds for any of them
+                var = am.path_constraints[arch_path][0]
+                if isinstance(var, AssembledADT):
+                    var = var._value_
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 054572ec1afa6d3365eead0f45561a38c5cbb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 17/35] fix: map to processing elements without constant inputs

---
 peak/mapper/mapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index c72c700..7ea2e56 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -530,7 +530,6 @@ class IRMapper(SMTMapper):
         for fi, form in enumerate(archmapper.input_forms):
             # form_condition represents the & of all the appropriate matches
             #   and that the const adt types are valid
-            assert len(archmapper.const_valid_conditions[fi]) > 0
             conditions = [form_var.match_index(fi)] + archmapper.const_valid_conditions[fi]
             for path, choice in form.path_dict.items():
                 match_path = path + (Match,)
@@ -569,7 +568,7 @@ class IRMapper(SMTMapper):
             const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
             inputs = aadt_product_to_dict(arch_in)
             const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            preconditions = list(const_valid_conditions)
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
-- 
2.43.0


From cb8aea5aa6db516c450bf236bc1384a0f95a85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 18/35] fix: compare the leaves of compound outputs in the
 simple formula

---
 peak/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 7ea2e56..63c95b8 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -652,7 +652,7 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                _, output_dict, _ = SMTForms()(mapper.output_aadt_t, value=output)
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From 5e7505db894cdb8466f6fd1935b0840c31d375f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 19/35] fix: reject rewrite rules that leave a constant input
 unbound

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 63c95b8..9d6ee04 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -245,7 +245,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From 7a14533f74e7f8f56356742bbe0e532906f653c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 20/35] fix: constraints of a path that no binding contains do
 not make the formula vacuous

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 9d6ee04..0ffd95a 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -689,7 +689,8 @@ class IRMapper(SMTMapper):
                 arch_var = archmapper.input_varmap[path]
                 if is_const:
                     exist_constraints.append(Or(arch_var == c for c in constraints))
-                else:
+                # A path which no binding contains is not universally quantified
+                elif arch_var.value in pysmt_forall_vars:
                     forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-- 
2.43.0


From 0576fe6b952482254741a1e827beb6d1eb88af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 21/35] fix: inputs of a rule that binds a leaf alternative of
 a Sum of another family

---
 peak/mapper/mapper.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 0ffd95a..d9f388a 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -272,14 +272,14 @@ class RewriteRule:
                 arch_binding.append((ir_path, arch_path))
 
         arch_aadt = _input_aadt_t(self.arch_fc, family)
-        arch_binding = SimplifyBinding()(arch_aadt, arch_binding)
+        arch_binding = SimplifyBinding()(arch_aadt, _resolve_paths(arch_binding, arch_aadt, family))
         # internally verify entire binding was simplified to a constant
         assert len(arch_binding) == 1
         assert arch_binding[0][1] == ()
         arch_input = arch_binding[0][0]
 
         ir_aadt = _input_aadt_t(self.ir_fc, family)
-        ir_binding = SimplifyBinding()(ir_aadt, ir_binding)
+        ir_binding = SimplifyBinding()(ir_aadt, _resolve_paths(ir_binding, ir_aadt, family))
         #internally verify entire binding was simplified to a constant
         assert len(ir_binding)==1
         assert ir_binding[0][1] == ()
@@ -831,6 +831,15 @@ def _input_aadt_t(fc, family):
     return input_aadt_t
 
 
+# The alternatives of a Sum can be types of this family or of another one.
+# Spell each path with the types which aadt_t was declared with
+def _resolve_paths(binding, aadt_t, family):
+    def rebind(path):
+        return path[:-1] + (rebind_type(path[-1], family),)
+    paths = {rebind(path): path for path in _create_path_to_adt(aadt_t.adt_t)}
+    return [(val, paths.get(rebind(path), path)) for val, path in binding]
+
+
 def rr_from_solver(solver, irmapper):
     im = irmapper
     am = irmapper.archmapper
-- 
2.43.0


From e328d23298c94887326b5906cbc4f7d9ca773da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 22/35] fix: constraints on non-constant enum paths can be
 substituted

---
 peak/mapper/mapper.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index d9f388a..6756add 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -197,7 +197,7 @@ class ArchMapper(SMTMapper):
             except Exception as e:
                 print("Invalid constraints for {path}")
                 raise e
-            path_constraints[path] =constraints
+            path_constraints[path] = tuple(c._value_ if isinstance(c, AssembledADT) else c for c in constraints)
 
         self.path_constraints = path_constraints
         self.IVar = IVar
@@ -859,8 +859,6 @@ def rr_from_solver(solver, irmapper):
                 # Universally quantified over its constraints, so the solver
                 # chose no value: the rule holds for any of them
                 var = am.path_constraints[arch_path][0]
-                if isinstance(var, AssembledADT):
-                    var = var._value_
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 29a7e88c374ded4677d23e0ddda877be7663a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 23/35] fix: constants inside of compound data inputs are valid
 in rewrite rules

---
 peak/mapper/mapper.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 6756add..93bce67 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -4,7 +4,7 @@ import typing as tp
 from functools import lru_cache
 from collections import defaultdict
 from peak import family_closure, Const
-from hwtypes.adt import Product, Tuple
+from hwtypes.adt import Product, Sum, TaggedUnion, Tuple
 from hwtypes import Bit, BitVector, SMTBit
 from hwtypes import AbstractBit, AbstractBitVector, TypeFamily
 from hwtypes.adt import is_adt_type
@@ -140,11 +140,10 @@ class SMTMapper:
         #output_form = output_forms[input_form_idx][output_form_idx]
         output_forms = []
         self.const_valid_conditions = []
-        const_fields = [field for field, T in input_t.field_dict.items() if issubclass(T, Const)]
 
         for input_form in input_forms:
             inputs = aadt_product_to_dict(input_form.value)
-            self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
+            self.const_valid_conditions.append(const_valid_conditions(input_t, input_form.value))
             #Construct output_aadt value
             outputs = self.peak_obj(**inputs)
 
@@ -211,6 +210,20 @@ def is_valid(aadt_value: tp.Union[AssembledADT, AbstractBit, AbstractBitVector])
     else:
         return type(aadt_value)._is_valid_(aadt_value._value_)
 
+#The conditions for every const part of a value to be valid
+def const_valid_conditions(adt_t, aadt_value):
+    if issubclass(adt_t, Const):
+        return [is_valid(aadt_value)]
+    conditions = []
+    if issubclass(adt_t, Tuple):
+        for field, T in adt_t.field_dict.items():
+            conditions += const_valid_conditions(T, aadt_value[field])
+    elif issubclass(adt_t, (Sum, TaggedUnion)):
+        for field, T in adt_t.field_dict.items():
+            choice = aadt_value[field] if issubclass(adt_t, Sum) else getattr(aadt_value, field)
+            conditions += [~choice.match | c for c in const_valid_conditions(T, choice.value)]
+    return conditions
+
 class RewriteRule:
     def __init__(self, ibinding, obinding, ir_fc, arch_fc):
         self.family = arch_fc._family_
@@ -565,10 +578,7 @@ class IRMapper(SMTMapper):
                 ir_in = self.input_value
 
             #TODO these are wrong once the Exists intersect FOrall issue shows up
-            const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
-            inputs = aadt_product_to_dict(arch_in)
-            const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = list(const_valid_conditions)
+            preconditions = const_valid_conditions(archmapper.peak_fc.Py.input_t, arch_in)
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
-- 
2.43.0


From 9c95f57ff9e9c48bc3be66d138fdb7f7c566ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 24/35] fix: rules that leave a leaf alternative of a Sum
 unbound can be run

---
 peak/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 93bce67..f9388e0 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -272,7 +272,7 @@ class RewriteRule:
         ibinding = rebind_binding(self.ibinding, family)
         ir_binding = []
         arch_binding = []
-        for ir_path, arch_path in ibinding:
+        for (ir_path, _), (_, arch_path) in zip(ibinding, self.ibinding):
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
                 val = ir_inputs[ir_path]
-- 
2.43.0


From 8e7aad04af2b48f1e6ed0cbdcfa48abaf071ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 25/35] fix: the result of Multi can be printed after solving

---
 peak/mapper/multi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..13f0f3f 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -275,12 +275,18 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    N = info.N
+    block_info = info.block_info
+    arch_info = info.arch_info
+    bind_var = info.bind_var
+    # The solver can not be used anymore once get_info is called
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    all_ivals = []
+    for i in range(N):
+        instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
+        all_ivals.append([solved_to_bv(instr._value_, solver) for instr in instrs])
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
         binding_indices = info.valid_bindings[bind_val]
         for i in range(N):
@@ -288,8 +294,6 @@ def RR(solver, info):
             print(f"Instruction {i}")
             binding = block_info[i].bindings[binding_indices[i]]
             pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            print(all_ivals[i])
         return info
     return get_info
-- 
2.43.0


From cbbe2b40fbdb8ccacc0acccfd59ce79a81b02027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 26/35] fix: the result of Multi can be printed for plain
 constants

---
 peak/mapper/multi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 13f0f3f..1c1a987 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -284,7 +285,8 @@ def RR(solver, info):
     all_ivals = []
     for i in range(N):
         instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-        all_ivals.append([solved_to_bv(instr._value_, solver) for instr in instrs])
+        instrs = [instr._value_ if isinstance(instr, AssembledADT) else instr for instr in instrs]
+        all_ivals.append([solved_to_bv(instr, solver) for instr in instrs])
 
     def get_info():
         print(bind_var.var.value, bind_val)
-- 
2.43.0


From 630f6b26ca40847a46bed484f4cd6378335290a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 27/35] fix: black boxes in the search for instruction
 sequences

---
 peak/mapper/multi.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 1c1a987..0d77426 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -6,7 +6,8 @@ from peak import family as peak_family, family_closure, Peak, Const
 from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
-from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
+from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs, update_with_bb
+from peak.black_box import get_black_boxes
 from .utils import _sort_by_t, pretty_print_binding, solved_to_bv, Unbound
 from .formula_constructor import And, Or, Implies
 import pysmt.shortcuts as smt
@@ -142,7 +143,6 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
         pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
 
 
         #Creating i'th binding
@@ -255,6 +255,23 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         impl_cond = And([free_repl, Or(impl_conds)])
     F = out_conds
     formula = And([valid_cond, Implies(impl_cond, F)])
+    #A black box is the same function in every instruction and in the ir
+    arch_bbs, arch_bb_inputs, arch_bb_outputs = {}, {}, {}
+    for i, block in enumerate(block_info[:N]):
+        for path, bb in get_black_boxes(block.obj).items():
+            arch_bbs[(i, *path)] = bb
+            arch_bb_inputs[(i, *path)] = block.bb_inputs[path]
+            arch_bb_outputs[(i, *path)] = block.bb_outputs[path]
+    formula, bb_forall = update_with_bb(
+        formula,
+        arch_bbs,
+        arch_bb_inputs,
+        arch_bb_outputs,
+        get_black_boxes(ir_obj),
+        ir_bb_inputs,
+        ir_bb_outputs,
+    )
+    pysmt_forall_vars += bb_forall
     formula = formula.to_hwtypes()
     forall_vars = pysmt_forall_vars
     formula_wo_forall = formula.value
-- 
2.43.0


From b3091b0d48926ff3dd8f57519f6b469608e95771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 28/35] fix: names of the rounding modes in the floating point
 elements

---
 peak/float.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..6548a01 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +174,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +210,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +255,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From 7fb75c2fbc6ea9b4690026d2d10c8635255625ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 29/35] fix: floating point elements assert the last rounding
 mode in every mode when rewritten

---
 peak/float.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 6548a01..7625a11 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -145,8 +145,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -183,8 +182,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -217,8 +215,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
@@ -266,8 +263,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
-                else:
-                    assert  rm == RoundingMode.RMM
+                else: # RoundingMode.RMM
                     in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                     in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                     in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
-- 
2.43.0


From 54d3a76a1490219267531df60aca0684b3593da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 30/35] fix: floating point predicates return a bit

---
 peak/float.py | 56 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 7625a11..cc69316 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -223,10 +223,44 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else: # RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -300,6 +334,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -338,7 +388,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From 040ad2872371918e7207b6bc50303047acb5ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 31/35] fix: fma with a constant rounding mode

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index cc69316..c196f70 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -400,7 +400,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 5ef01aea23dfdad6cdfe9b10861d503e11d65463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 32/35] fix: size of enums whose codes are not consecutive

---
 peak/bitfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..0da612c 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,9 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        codes = [e._value_ for e in type.enumerate()]
+        # codes need not be consecutive
+        return clog2(max([len(codes) - 1] + [c for c in codes if isinstance(c, int)]) + 1)
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From 070acc79cb7025b3c5fd16f1abf22e426b48c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 33/35] fix: encoding of negative values

---
 peak/bitfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 0da612c..8f700f9 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -63,6 +63,8 @@ def encode(inst, reverse=False):
     if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
         # depreciated
         word = inst._value_ if isinstance(inst,Enum) else int(inst)
+        if word < 0 and isinstance(inst, AbstractBitVector): # signed vectors
+            word += 1 << inst.size
     else:
         typeinst = type(inst)
         if isinstance(inst,Product):
-- 
2.43.0


From 354b00ec79388090fef148a3e6ac117d36c5f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 34/35] fix: tags of alternatives without declared tags
 differed between runs

---
 peak/bitfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 8f700f9..2bc6574 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -48,7 +48,9 @@ def instkey(inst):
         # depreciated
         i = t.tags[type(inst._value_)]
     else:
-        i = list(t.fields).index(type(inst._value_))
+        # the order of the set of fields differs between runs
+        fields = sorted(t.fields, key=lambda field: (field.__name__, field.__module__))
+        i = fields.index(type(inst._value_))
     return i
 
 def bitfield(i):
-- 
2.43.0


From cb0939562a087e6847be50c2117fc51741cb0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 35/35] fix: symbolic constants in the bindings of rewrite
 rules

---
 peak/mapper/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index dcc4c1c..274af0c 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -343,13 +343,13 @@ def rebind_value(val, _family):
     elif isinstance(val, family.PyFamily().Bit):
         return _family.Bit(val)
     elif isinstance(val, family.SMTFamily().BitVector):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.BitVector[val.size](val._value_.constant_value())
+        return _family.BitVector[val.size](val.value.constant_value())
     elif isinstance(val, family.SMTFamily().Bit):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.Bit(val._value_.constant_value())
+        return _family.Bit(val.value.constant_value())
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
-- 
2.43.0

