From d71324334c257b4f581157c298dc7dd3912c283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 01/30] fix: do not merge a live range into one that starts
 with an early def in the next block

With out-of-order blocks, an early def on the first instruction of a block
made its range contiguous with the range of an earlier-numbered block it
dominates; splitting then dropped the part before the def (panic "no entry
found for key" or wrong moves).
---
 src/ion/liveranges.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..daeb34e 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -188,11 +188,25 @@ impl<'a, F: Function> Env<'a, F> {
             );
         }
 
+        // A range that ends at a block boundary must not be merged into a
+        // following range that starts with a def there (an early def on the
+        // first instruction of the next block): with out-of-order blocks the
+        // two are separate, and the rest of the allocator relies on a
+        // range's def being its first use.
+        let starts_at_def_after_block_end = self.vregs[vreg].ranges.last().map_or(false, |last| {
+            let last = &self.ranges[last.index];
+            range.to == last.range.from
+                && last.has_flag(LiveRangeFlag::StartsAtDef)
+                && self.cfginfo.insn_block[range.from.inst().index()]
+                    != self.cfginfo.insn_block[range.to.inst().index()]
+        });
+
         if self.vregs[vreg].ranges.is_empty()
             || range.to
                 < self.ranges[self.vregs[vreg].ranges.last().unwrap().index]
                     .range
                     .from
+            || starts_at_def_after_block_end
         {
             // Is not contiguous with previously-added (immediately
             // following) range; create a new range.
-- 
2.43.0


From cf992836643faa22ee12e66ede81416817ca51c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 02/30] fix: reserve a register once when several fixups of one
 vreg need it

The same register was added twice to the preg's allocation map when one vreg
was constrained to it more than once (debug assertion failure).
---
 src/ion/liveranges.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index daeb34e..2e3b701 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -498,6 +498,7 @@ impl<'a, F: Function> Env<'a, F> {
                 // else is a user error.
                 operand_rewrites.clear();
                 let mut late_def_fixed: SmallVec<[PReg; 8]> = smallvec![];
+                let mut early_use_fixed: SmallVec<[PReg; 8]> = smallvec![];
                 for &operand in self.func.inst_operands(inst) {
                     if let OperandConstraint::FixedReg(preg) = operand.constraint() {
                         match (operand.pos(), operand.kind()) {
@@ -562,8 +563,13 @@ impl<'a, F: Function> Env<'a, F> {
                                     // We need to insert a reservation
                                     // at the before-point to reserve
                                     // the reg for the use too.
-                                    let range = CodeRange::singleton(pos);
-                                    self.add_liverange_to_preg(range, preg);
+                                    // The same vreg may be constrained to
+                                    // it more than once.
+                                    if !early_use_fixed.contains(&preg) {
+                                        early_use_fixed.push(preg);
+                                        let range = CodeRange::singleton(pos);
+                                        self.add_liverange_to_preg(range, preg);
+                                    }
 
                                     // Remove the fixed-preg
                                     // constraint from the Use.
@@ -911,7 +917,9 @@ impl<'a, F: Function> Env<'a, F> {
                                 u.operand.pos(),
                             );
                             trace!(" -> extra clobber {} at inst{}", preg, u.pos.inst().index());
-                            extra_clobbers.push((preg, u.pos));
+                            if !extra_clobbers.contains(&(preg, u.pos)) {
+                                extra_clobbers.push((preg, u.pos));
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 07d3d5ac701ece079da6bbe056aaa5d6b13f188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 03/30] fix: insert multi-fixed-reg copies before the
 instruction for late uses too

With one vreg constrained to two registers by late uses (or by early uses
extended because another input is reused), the copy was emitted after the
instruction that reads it.
---
 src/ion/liveranges.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 2e3b701..eda56c5 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -902,8 +902,13 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The use may be at the late point (a late use,
+                            // or an early one extended because another input
+                            // is reused), but the instruction reads it there:
+                            // the copy has to happen before the instruction.
+                            let pos = ProgPoint::before(u.pos.inst());
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos,
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -926,7 +931,7 @@ impl<'a, F: Function> Env<'a, F> {
 
                 for (clobber, pos) in extra_clobbers.drain(..) {
                     let range = CodeRange {
-                        from: pos,
+                        from: ProgPoint::before(pos.inst()),
                         to: pos.next(),
                     };
                     self.add_liverange_to_preg(range, clobber);
-- 
2.43.0


From 808c824933a41c8797dbc3620d743a0654ba4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 04/30] fix: do not read a multi-fixed-reg copy from a use that
 is itself rewritten

With a Limit constraint and a fixed register outside of it on one vreg, the
copies for other fixed uses could read the register being written by the copy
for that use.
---
 src/ion/liveranges.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index eda56c5..c5350f3 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -822,22 +822,18 @@ impl<'a, F: Function> Env<'a, F> {
                     let mut requires_reg = false;
                     let mut num_fixed_reg = 0;
                     let mut num_fixed_stack = 0;
-                    let mut first_reg_slot = None;
                     let mut first_stack_slot = None;
                     let mut min_limit = usize::MAX;
                     let mut max_fixed_reg = usize::MIN;
                     for u in uses.iter() {
                         match u.operand.constraint() {
                             OperandConstraint::Any => {
-                                first_reg_slot.get_or_insert(u.slot);
                                 first_stack_slot.get_or_insert(u.slot);
                             }
                             OperandConstraint::Reg | OperandConstraint::Reuse(_) => {
-                                first_reg_slot.get_or_insert(u.slot);
                                 requires_reg = true;
                             }
                             OperandConstraint::Limit(max) => {
-                                first_reg_slot.get_or_insert(u.slot);
                                 min_limit = min_limit.min(max);
                                 requires_reg = true;
                             }
@@ -849,8 +845,7 @@ impl<'a, F: Function> Env<'a, F> {
                                 } else {
                                     requires_reg = true;
                                     num_fixed_reg += 1;
-                                    first_reg_slot.get_or_insert(u.slot);
-                                }
+                                    }
                             }
                             // Maybe this could be supported in this future...
                             OperandConstraint::Stack => panic!(
@@ -871,8 +866,21 @@ impl<'a, F: Function> Env<'a, F> {
                     // and then rewrite any incompatible constraints to Any.
                     // This allows register allocation to succeed and we will
                     // later insert moves to satisfy the rewritten constraints.
+                    //
+                    // The copies read the location of a use that is not
+                    // itself going to be overridden by one of them, so a
+                    // FixedReg use outside the limit is not a source.
+                    let pregs = &self.ctx.pregs;
                     let source_slot = if requires_reg {
-                        first_reg_slot.unwrap()
+                        uses.iter()
+                            .find(|u| match u.operand.constraint() {
+                                OperandConstraint::FixedReg(preg) => {
+                                    !pregs[preg.index()].is_stack && preg.hw_enc() < min_limit
+                                }
+                                _ => true,
+                            })
+                            .unwrap()
+                            .slot
                     } else {
                         first_stack_slot.unwrap()
                     };
@@ -895,8 +903,8 @@ impl<'a, F: Function> Env<'a, F> {
                             // we edit the constraint below; otherwise, we can
                             // skip this edit.
                             if !(requires_reg && self.ctx.pregs[preg.index()].is_stack)
-                                && *first_preg.get_or_insert(preg) == preg
                                 && preg.hw_enc() < min_limit
+                                && *first_preg.get_or_insert(preg) == preg
                             {
                                 continue;
                             }
-- 
2.43.0


From 74f4bfde5b2ab3cddeea4215602909a7b9f107f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 05/30] fix: allow one vreg to be constrained to the same
 register twice by an instruction

Both uses kept the constraint, and when the bundle was split down to minimal
bundles the two conflicted ("Could not allocate minimal bundle").
---
 src/ion/liveranges.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index c5350f3..e806717 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -845,7 +845,7 @@ impl<'a, F: Function> Env<'a, F> {
                                 } else {
                                     requires_reg = true;
                                     num_fixed_reg += 1;
-                                    }
+                                }
                             }
                             // Maybe this could be supported in this future...
                             OperandConstraint::Stack => panic!(
@@ -902,11 +902,27 @@ impl<'a, F: Function> Env<'a, F> {
                             // FixedReg constraint. If either condition is true,
                             // we edit the constraint below; otherwise, we can
                             // skip this edit.
+                            let mut from_slot = source_slot;
+                            let mut repeated = false;
                             if !(requires_reg && self.ctx.pregs[preg.index()].is_stack)
                                 && preg.hw_enc() < min_limit
-                                && *first_preg.get_or_insert(preg) == preg
                             {
-                                continue;
+                                let (kept_preg, kept_slot) =
+                                    *first_preg.get_or_insert((preg, u.slot));
+                                if kept_slot == u.slot
+                                    || (kept_preg == preg && u.operand.kind() == OperandKind::Def)
+                                {
+                                    continue;
+                                }
+                                if kept_preg == preg {
+                                    // The same constraint again: it is
+                                    // satisfied by the location of the first
+                                    // one. It must not be left in place, as
+                                    // two minimal bundles would then need the
+                                    // same register.
+                                    from_slot = kept_slot;
+                                    repeated = true;
+                                }
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
@@ -917,7 +933,7 @@ impl<'a, F: Function> Env<'a, F> {
                             let pos = ProgPoint::before(u.pos.inst());
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
                                 pos,
-                                from_slot: source_slot,
+                                from_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
                                 vreg: vreg_idx,
@@ -929,8 +945,12 @@ impl<'a, F: Function> Env<'a, F> {
                                 u.operand.kind(),
                                 u.operand.pos(),
                             );
-                            trace!(" -> extra clobber {} at inst{}", preg, u.pos.inst().index());
-                            if !extra_clobbers.contains(&(preg, u.pos)) {
+                            if !repeated && !extra_clobbers.contains(&(preg, u.pos)) {
+                                trace!(
+                                    " -> extra clobber {} at inst{}",
+                                    preg,
+                                    u.pos.inst().index()
+                                );
                                 extra_clobbers.push((preg, u.pos));
                             }
                         }
-- 
2.43.0


From 3f7f17a20d39b5c7ade687abcb4af642fda88962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 06/30] fix: make the default algorithm's debug locations
 disjoint as documented

A vreg can be in several places at once, which gave overlapping ranges for one
label.
---
 src/ion/moves.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..e1b0a6a 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -772,6 +772,25 @@ impl<'a, F: Function> Env<'a, F> {
         // invariant to the client.
         self.output.debug_locations.sort_unstable();
 
+        // A vreg can be in several places at once (e.g., in a register at a
+        // use and in its spillslot), but we promise disjoint ranges for each
+        // label: report only one of the places.
+        let mut last: Option<(u32, ProgPoint)> = None;
+        self.output
+            .debug_locations
+            .retain_mut(|(label, from, to, _alloc)| {
+                if let Some((last_label, last_to)) = last {
+                    if last_label == *label && *from < last_to {
+                        *from = last_to;
+                    }
+                }
+                if *from >= *to {
+                    return false;
+                }
+                last = Some((*label, *to));
+                true
+            });
+
         inserted_moves
     }
 
-- 
2.43.0


From ed093b86bf4d50b5eafaf80cda59676407b46cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 07/30] fix: fastalloc: save a def to its spillslot from where
 it was defined

When a def was not allocated where later uses expect it, the move into its
spillslot read that expected location, and was executed before the move that
fills it.
---
 src/fastalloc/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..3570dd2 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1112,10 +1112,13 @@ impl<'a, F: Function> Env<'a, F> {
         let slot = self.vreg_spillslots[op.vreg().vreg()];
         if slot.is_valid() {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
-            let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
+            // Save the value from where the instruction defines it: if that
+            // isn't the allocation that later uses expect, then the move into
+            // the latter is executed after this one.
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            if def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From 0e1766d32a50246403a72fb4c26951a55ee743c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 08/30] fix: fastalloc: do not insert moves after a branch

A vreg defined on a branch is already copied where it is needed at the
beginning of the successors.
---
 src/fastalloc/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 3570dd2..0f2bb51 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -861,7 +861,9 @@ impl<'a, F: Function> Env<'a, F> {
             // used (in `prev_alloc`, that is).
             else {
                 trace!("Move reason: Prev allocation doesn't meet constraints");
-                if op.kind() == OperandKind::Def {
+                // A vreg defined on a branch is moved at the beginning of the
+                // successors that need it: nothing can be inserted after a branch.
+                if op.kind() == OperandKind::Def && !self.func.is_branch(inst) {
                     trace!("Adding edit from {new_alloc:?} to {curr_alloc:?} after inst {inst:?} for {op}");
                     self.add_move(inst, new_alloc, curr_alloc, op.class(), InstPosition::After)?;
                 }
@@ -1117,7 +1119,7 @@ impl<'a, F: Function> Env<'a, F> {
             // the latter is executed after this one.
             let def_alloc = self.allocs[(inst.index(), op_idx)];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if def_alloc != new_alloc {
+            if def_alloc != new_alloc && !self.func.is_branch(inst) {
                 self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
-- 
2.43.0


From e4c113ea2a3cb5c1c91a1892f64b7d2380e0f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 09/30] fix: fastalloc: sort debug locations by program point
 as documented

---
 src/fastalloc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 0f2bb51..18ccc3c 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1555,7 +1555,8 @@ impl<'a, F: Function> Env<'a, F> {
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations
+            .sort_by_key(|&(label, start, end, _)| (label, start, end));
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From 4585b76c781c4fd4b4a1c6b1593f735a60977c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 10/30] fix: fastalloc: do not keep a branch arg in a register
 it has left

After a branch arg was moved to its spillslot for the branch, its register was
still considered to hold it: a later eviction reloaded the dead vreg there.
---
 src/fastalloc/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 18ccc3c..48f84b0 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -980,6 +980,10 @@ impl<'a, F: Function> Env<'a, F> {
                         vreg.class(),
                         InstPosition::Before,
                     )?;
+                    if let Some(preg) = curr_alloc.as_reg() {
+                        // The vreg is in its spillslot before the branch.
+                        self.vreg_in_preg[preg.index()] = VReg::invalid();
+                    }
                 }
                 self.vreg_allocs[vreg.vreg()] = vreg_spill;
                 let parallel_moves = match vreg.class() {
-- 
2.43.0


From 4d64334518774cba4b2210388125f59bbee16845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 11/30] fix: fastalloc: allow one vreg to be constrained to the
 same register twice

---
 src/fastalloc/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 48f84b0..2e9f77f 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1191,7 +1191,13 @@ impl<'a, F: Function> Env<'a, F> {
             let OperandConstraint::FixedReg(preg) = op.constraint() else {
                 unreachable!();
             };
-            self.reserve_reg_for_operand(op, op_idx, preg)?;
+            // A vreg may be constrained to the same register more than once.
+            let is_repeat = seen.contains(preg)
+                && self.reused_input_to_reuse_op[op_idx] == usize::MAX
+                && operands.fixed().any(|(idx, o)| idx < op_idx && o == op);
+            if !is_repeat {
+                self.reserve_reg_for_operand(op, op_idx, preg)?;
+            }
 
             if !seen.contains(preg) {
                 seen.add(preg);
-- 
2.43.0


From bc9876c37d2c70b9ca24c84f0b58392c79278d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 12/30] fix: fastalloc: an evicted scratch register no longer
 holds its vreg

A later eviction reloaded a stale vreg into it, possibly after a branch.
---
 src/fastalloc/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 2e9f77f..0ffaae7 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -186,6 +186,7 @@ impl<'a, F: Function> State<'a, F> {
         if let Some(preg) = self.lrus[class].last(avail_regs) {
             if self.vreg_in_preg[preg.index()] != VReg::invalid() {
                 self.evict_vreg_in_preg(inst, preg, pos)?;
+                self.vreg_in_preg[preg.index()] = VReg::invalid();
             }
             self.scratch_regs[class] = Some(preg);
             self.available_pregs[OperandPos::Early].remove(preg);
-- 
2.43.0


From 5bcba1fb7275887387320ec6f169bcd1b3bf0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 13/30] fix: report too many live registers for the first
 instruction without underflow

Counting the conflicts of a minimal bundle that starts at the first program
point stepped in front of it: a panic instead of the error.
---
 src/ion/process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..a917c1b 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1226,9 +1226,11 @@ impl<'a, F: Function> Env<'a, F> {
                         .chain(self.env.non_preferred_regs_by_class[class as u8 as usize])
                     {
                         trace!(" -> PR {:?}", preg);
+                        // There is no point before the function's first one.
+                        let before = ProgPoint::from_index(range.from.to_index().saturating_sub(1));
                         let start = LiveRangeKey::from_range(&CodeRange {
-                            from: range.from.prev(),
-                            to: range.from.prev(),
+                            from: before,
+                            to: before,
                         });
                         for (key, lr) in self.ctx.pregs[preg.index()]
                             .allocations
-- 
2.43.0


From 888669d20a1db676fb9c78812d6a776bc8b38381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 14/30] fix: checker: a move from an unknown location
 invalidates its destination

The destination kept what it held before, so that a later use of the
overwritten value was accepted.
---
 src/checker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..2008f20 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -559,6 +559,9 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    // Whatever `into` held is overwritten all the same.
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From 3da6ce47861a46bfa78ce4ed66c1557af57c1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 15/30] fix: checker: check late operands of instructions with
 a reused input

Nothing at the late point of such instructions was checked, not even that the
reusing definition has the location of the input it reuses. Reused inputs are
early uses and thus not affected by checks at the late point.
---
 src/checker.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 2008f20..746bfec 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -482,16 +482,6 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-- 
2.43.0


From d1525bc169d92640de8700f16e09f1534272791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 16/30] fix: checker: reject stack locations for limited-range
 operands

---
 src/checker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/checker.rs b/src/checker.rs
index 746bfec..090b115 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -670,6 +670,12 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
+                // Neither spillslots nor pregs that represent a fixed stack
+                // slot are registers.
+                match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => {}
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                }
                 if let Some(preg) = alloc.as_reg() {
                     if preg.hw_enc() >= max {
                         return Err(CheckerError::AllocationOutsideLimit {
-- 
2.43.0


From 897cee03f5d099c06714e9ef8a7350997f94d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 17/30] fix: PRegSet::add_up_to keeps the registers that are
 already in the set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..5bf25bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From e83a11c3e29557a2939452f70fec0f3f3ec2ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 18/30] fix: Allocation::from_bits accepts the encodings of all
 allocations

The debug assertion rejected every one of them.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bf25bc..74eda3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1189,7 +1189,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= AllocationKind::Stack as u32);
         Self { bits }
     }
 }
-- 
2.43.0


From e5da76fce4059f4e19f71e4bc3088a5fdac27333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 19/30] fix: validation rejects uses of out-of-range vregs
 instead of panicking

---
 src/ssa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..41c1f53 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -61,7 +61,10 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
+                        let def_block = defined_in
+                            .get(operand.vreg().vreg())
+                            .copied()
+                            .unwrap_or(Block::invalid());
                         let okay = def_block.is_valid()
                             && if def_block == block {
                                 local.contains(&operand.vreg())
-- 
2.43.0


From 99cbfcf1de8e5d8aba43b661a859dc6dbbe7c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 20/30] fix: validation accepts repeated defs in an instruction
 where they are allowed

---
 src/ssa.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 41c1f53..bebd51a 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -8,7 +8,7 @@
 use alloc::vec;
 
 use crate::cfg::CFGInfo;
-use crate::{Block, Function, FxHashSet, Inst, OperandKind, RegAllocError, VReg};
+use crate::{Block, Function, FxHashSet, Inst, Operand, OperandKind, RegAllocError, VReg};
 
 pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllocError> {
     // For every block param and inst def, check that this is the only def.
@@ -32,8 +32,16 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
             def(param, Inst::invalid())?;
         }
         for inst in f.block_insns(block).iter() {
-            for operand in f.inst_operands(inst) {
+            let operands = f.inst_operands(inst);
+            for (i, operand) in operands.iter().enumerate() {
                 if let OperandKind::Def = operand.kind() {
+                    // An instruction may be allowed to repeat a def.
+                    let is_repeat = |earlier: &Operand| {
+                        earlier.kind() == OperandKind::Def && earlier.vreg() == operand.vreg()
+                    };
+                    if f.allow_multiple_vreg_defs() && operands[..i].iter().any(is_repeat) {
+                        continue;
+                    }
                     def(operand.vreg(), inst)?;
                 }
             }
-- 
2.43.0


From c7c30bfd392efcbaad2db2cea311b65c8d597ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 21/30] fix: validation checks that the definitions of branch
 args dominate the branch

---
 src/ssa.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ssa.rs b/src/ssa.rs
index bebd51a..c499e65 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -99,6 +99,29 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
                     local.insert(operand.vreg());
                 }
             }
+
+            // Branch args are uses on the outgoing edges, after any defs of
+            // the branch itself.
+            if iix == f.block_insns(block).last() && f.is_branch(iix) {
+                for succ_idx in 0..f.block_succs(block).len() {
+                    for &arg in f.branch_blockparams(block, iix, succ_idx) {
+                        let def_block = defined_in
+                            .get(arg.vreg())
+                            .copied()
+                            .unwrap_or(Block::invalid());
+                        let okay = def_block.is_valid()
+                            && if def_block == block {
+                                local.contains(&arg)
+                            } else {
+                                cfginfo.dominates(def_block, block)
+                            };
+                        if !okay {
+                            trace!("Invalid branch arg {:?}", arg);
+                            return Err(RegAllocError::SSA(arg, iix));
+                        }
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From f023381ca4bf3ceb1cf0ffc7978454df59248a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 22/30] verification hook: re-export internal algorithms under
 --cfg regalloc2_verif

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74eda3c..67d6de4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,6 +67,22 @@ pub mod fuzzing;
 #[cfg(feature = "enable-serde")]
 pub mod serialize;
 
+/// Internal items for external verification harnesses: compiled only with
+/// `--cfg regalloc2_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(regalloc2_verif)]
+pub mod verif_hooks {
+    pub mod moves {
+        pub use crate::moves::{MoveAndScratchResolver, MoveVec, MoveVecWithScratch, ParallelMoves};
+    }
+    pub mod domtree {
+        pub use crate::domtree::{calculate, dominates};
+    }
+    pub mod postorder {
+        pub use crate::postorder::calculate;
+    }
+}
+
 #[cfg(feature = "enable-serde")]
 use serde::{Deserialize, Serialize};
 
-- 
2.43.0


From b384564000657949a8a7068382222493cd5289f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 23/30] fix: checker: do not analyze blocks before the state at
 their start is known

A block laid out before its predecessors was analyzed as if no location
held a value at its start, and its successors then believed so for good:
correct allocations were rejected.
---
 src/checker.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 090b115..3861f67 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -748,7 +748,7 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
@@ -844,8 +844,8 @@ impl<'a, F: Function> Checker<'a, F> {
         let mut queue_set = FxHashSet::default();
 
         // Put every block in the queue to start with, to ensure
-        // everything is visited even if the initial state remains
-        // `Top` after preds update it.
+        // everything reachable is visited even if its state does not
+        // change after preds update it.
         //
         // We add blocks in reverse order so that when we process
         // back-to-front below, we do our initial pass in input block
@@ -861,6 +861,13 @@ impl<'a, F: Function> Checker<'a, F> {
             queue_set.remove(&block);
             let mut state = self.bb_in.get(&block).cloned().unwrap();
             trace!("analyze: block {} has state {:?}", block.index(), state);
+            // Nothing is known about a block until one of its preds has
+            // been visited, which may come later in block order; the pred
+            // puts it back in the queue. Going on from here would have its
+            // succs believe that no location holds any value.
+            if let CheckerState::Top = state {
+                continue;
+            }
             for inst in self.bb_insts.get(&block).unwrap() {
                 state.update(inst);
                 trace!("analyze: inst {:?} -> state {:?}", inst, state);
-- 
2.43.0


From 28a45f3e8743d96362c34eb885deeca51ead1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 24/30] fix: ion: keep every input live when an instruction
 reuses several inputs

With two reusing outputs, the copy of one reused input into its output's
register could overwrite the other reused input before a second operand
naming the same virtual register was read.
---
 src/ion/liveranges.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index e806717..d7a124e 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -472,14 +472,21 @@ impl<'a, F: Function> Env<'a, F> {
                 // outputs? This is important below to establish
                 // proper interference wrt other inputs. We note the
                 // *vreg* that is reused, not the index.
+                // (If there are several such outputs then no input is
+                // exempt: the copy into one output's register may
+                // come before another operand's read of it.)
+                let mut has_reused_input = false;
                 let mut reused_input = None;
                 for op in self.func.inst_operands(inst) {
                     if let OperandConstraint::Reuse(i) = op.constraint() {
-                        debug_assert!(self.func.inst_operands(inst)[i]
-                            .as_fixed_nonallocatable()
-                            .is_none());
-                        reused_input = Some(self.func.inst_operands(inst)[i].vreg());
-                        break;
+                        let reused = self.func.inst_operands(inst)[i];
+                        debug_assert!(reused.as_fixed_nonallocatable().is_none());
+                        reused_input = if has_reused_input {
+                            None
+                        } else {
+                            Some(reused.vreg())
+                        };
+                        has_reused_input = true;
                     }
                 }
 
@@ -609,8 +616,7 @@ impl<'a, F: Function> Env<'a, F> {
                             // the other inputs and the
                             // input-that-is-reused/output.
                             (OperandKind::Use, OperandPos::Early)
-                                if reused_input.is_some()
-                                    && reused_input.unwrap() != operand.vreg() =>
+                                if has_reused_input && reused_input != Some(operand.vreg()) =>
                             {
                                 ProgPoint::after(inst)
                             }
-- 
2.43.0


From d21e197232a54acba3ce170d773ebb5a8c1eaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 25/30] verification hook: control-flow tables and set
 emptiness under --cfg regalloc2_verif

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 67d6de4..4506214 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,6 +81,14 @@ pub mod verif_hooks {
     pub mod postorder {
         pub use crate::postorder::calculate;
     }
+    pub mod cfg {
+        pub use crate::cfg::{CFGInfo, CFGInfoCtx};
+    }
+    pub mod indexset {
+        pub fn is_empty(set: &crate::indexset::IndexSet) -> bool {
+            set.is_empty()
+        }
+    }
 }
 
 #[cfg(feature = "enable-serde")]
-- 
2.43.0


From 84ee5877e7f1fb87766db92ffb8e20151904e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 26/30] fix: fastalloc: leave registers for the operands that
 need them

An operand that can be anywhere was given a register as long as there were
more registers than any-reg operands to allocate. As the registers taken by
other such operands weren't counted, and neither were the any-reg operands of
the other phase, none could be left for an any-reg operand, and the allocation
failed with TooManyLiveRegs.
---
 src/fastalloc/mod.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 0ffaae7..be4826a 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -611,8 +611,10 @@ impl<'a, F: Function> Env<'a, F> {
                 if let Some(preg) = alloc.as_reg() {
                     let exclusive_pos: ExclusiveOperandPos = op.into();
                     if !self.is_stack(alloc)
-                        && self.num_available_pregs[exclusive_pos][op.class()]
+                        && (self.num_available_pregs[exclusive_pos][op.class()]
                             < self.num_any_reg_ops[exclusive_pos][op.class()]
+                            || (self.available_pregs[op.pos()].contains(preg)
+                                && !self.can_spare_reg(op.class())))
                     {
                         trace!("Need more registers to cover all any-reg ops. Going to evict {op} from {preg}");
                         return false;
@@ -674,6 +676,27 @@ impl<'a, F: Function> Env<'a, F> {
         }
     }
 
+    /// Whether an operand that doesn't need a register can be given one of
+    /// class `class`: the ones that are left must cover the any-reg operands
+    /// that haven't been allocated yet and a scratch register.
+    fn can_spare_reg(&self, class: RegClass) -> bool {
+        let avail_regs = self.available_pregs[OperandPos::Late]
+            & self.available_pregs[OperandPos::Early]
+            & self.allocatable_regs;
+        let num_avail = avail_regs
+            .into_iter()
+            .filter(|preg| preg.class() == class)
+            .count() as i16;
+        let num_any_reg_ops: i16 = self
+            .num_any_reg_ops
+            .items
+            .iter()
+            .map(|num| num[class])
+            .sum();
+        let num_scratch = self.scratch_regs[class].is_none() as i16;
+        num_avail > num_any_reg_ops + num_scratch
+    }
+
     fn freealloc(&mut self, vreg: VReg) {
         trace!("Freeing vreg {}", vreg);
         let alloc = self.vreg_allocs[vreg.vreg()];
@@ -767,6 +790,7 @@ impl<'a, F: Function> Env<'a, F> {
                     // Not safe to alloc register because any-reg operands still
                     // need them
                     || self.num_any_reg_ops[op.into()][op.class()] >= self.num_available_pregs[op.into()][op.class()]
+                    || !self.can_spare_reg(op.class())
                 {
                     // If the def is never used, it can just be put in its spillslot.
                     Allocation::stack(self.get_spillslot(op.vreg()))
-- 
2.43.0


From 89696f0defa8f5e58954ef05cdd44659fe92b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 27/30] fix: fastalloc: a reused input in a fixed register
 doesn't stay there

The register of a fixed-register operand was only evicted when it held
another vreg. If the operand is the input of a reuse def and lives on in
that very register, the def overwrites it.
---
 src/fastalloc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index be4826a..f18226d 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1240,14 +1240,17 @@ impl<'a, F: Function> Env<'a, F> {
 
         self.remove_clobbers_from_available_pregs(clobbers);
 
-        for (_, op) in operands.fixed() {
+        for (op_idx, op) in operands.fixed() {
             let OperandConstraint::FixedReg(preg) = op.constraint() else {
                 unreachable!();
             };
             // Eviction has to be done separately to avoid using a fixed register
             // as a scratch register.
+            // The def that reuses an input overwrites the input's register, so
+            // the input itself can't stay there either.
             if self.vreg_in_preg[preg.index()] != VReg::invalid()
-                && self.vreg_in_preg[preg.index()] != op.vreg()
+                && (self.vreg_in_preg[preg.index()] != op.vreg()
+                    || self.reused_input_to_reuse_op[op_idx] != usize::MAX)
             {
                 trace!(
                     "Evicting {} from fixed register {preg}",
-- 
2.43.0


From e359bc471314c286e926b8b328f9616212cc9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 28/30] fix: fastalloc: allow a reused input to repeat a
 fixed-register constraint

A vreg may be constrained to the same register twice, also when one of the
two operands is the input of a reuse def.
---
 src/fastalloc/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index f18226d..d23881b 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1217,10 +1217,18 @@ impl<'a, F: Function> Env<'a, F> {
                 unreachable!();
             };
             // A vreg may be constrained to the same register more than once.
-            let is_repeat = seen.contains(preg)
-                && self.reused_input_to_reuse_op[op_idx] == usize::MAX
-                && operands.fixed().any(|(idx, o)| idx < op_idx && o == op);
-            if !is_repeat {
+            let is_repeat =
+                seen.contains(preg) && operands.fixed().any(|(idx, o)| idx < op_idx && o == op);
+            if is_repeat {
+                // Only the def that reuses this one, if any, is new.
+                if self.reused_input_to_reuse_op[op_idx] != usize::MAX {
+                    if !self.available_pregs[OperandPos::Late].contains(preg) {
+                        trace!("fixed {preg} for the def that reuses {op} isn't available");
+                        return Err(RegAllocError::TooManyLiveRegs);
+                    }
+                    self.available_pregs[OperandPos::Late].remove(preg);
+                }
+            } else {
                 self.reserve_reg_for_operand(op, op_idx, preg)?;
             }
 
-- 
2.43.0


From 183f56e3c4172aa4c919fcde0c2764e6220ff192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 29/30] fix: fixed-register inputs that are also clobbered or
 defined, beside a reused input

The other inputs of an instruction with a reused input are extended to the
After point. An input in a fixed register that the instruction also clobbers
or defines then conflicts there, and allocation panics: handle it like one
that is live downward.
---
 src/ion/liveranges.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index d7a124e..dbc28e8 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -523,14 +523,16 @@ impl<'a, F: Function> Env<'a, F> {
                     if let OperandConstraint::FixedReg(preg) = operand.constraint() {
                         match (operand.pos(), operand.kind()) {
                             (OperandPos::Early, OperandKind::Use)
-                                if live.get(operand.vreg().vreg()) =>
+                                if live.get(operand.vreg().vreg())
+                                    || has_reused_input && reused_input != Some(operand.vreg()) =>
                             {
                                 // If we have a use constraint at the
                                 // Early point for a fixed preg, and
                                 // this preg is also constrained with
                                 // a *separate* def at Late or is
                                 // clobbered, and *if* the vreg is
-                                // live downward, we have to use the
+                                // live downward (or extended to After
+                                // because of a reused input), we have to use the
                                 // multi-fixed-reg mechanism for a
                                 // fixup and rewrite here without the
                                 // constraint. See #53.
-- 
2.43.0


From 4a48f0c7c67238b8ecc462e9f9c1a0f1dc82ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 30/30] fix: a def that reuses an input in a fixed register
 gets that register

The input was otherwise moved to the register chosen for the def, against
its own constraint.
---
 src/ion/liveranges.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index dbc28e8..7f5418e 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -477,10 +477,20 @@ impl<'a, F: Function> Env<'a, F> {
                 // come before another operand's read of it.)
                 let mut has_reused_input = false;
                 let mut reused_input = None;
-                for op in self.func.inst_operands(inst) {
+                operand_rewrites.clear();
+                for (def, op) in self.func.inst_operands(inst).iter().enumerate() {
                     if let OperandConstraint::Reuse(i) = op.constraint() {
                         let reused = self.func.inst_operands(inst)[i];
                         debug_assert!(reused.as_fixed_nonallocatable().is_none());
+                        // If the input must be in a fixed register, then so
+                        // must the def, and nothing is left to be shared.
+                        if let OperandConstraint::FixedReg(_) = reused.constraint() {
+                            operand_rewrites.insert(
+                                def,
+                                Operand::new(op.vreg(), reused.constraint(), op.kind(), op.pos()),
+                            );
+                            continue;
+                        }
                         reused_input = if has_reused_input {
                             None
                         } else {
@@ -503,10 +513,10 @@ impl<'a, F: Function> Env<'a, F> {
                 // register can be used multiple times in the same
                 // instruction is with an early-use and a late-def. Anything
                 // else is a user error.
-                operand_rewrites.clear();
                 let mut late_def_fixed: SmallVec<[PReg; 8]> = smallvec![];
                 let mut early_use_fixed: SmallVec<[PReg; 8]> = smallvec![];
-                for &operand in self.func.inst_operands(inst) {
+                for (i, operand) in self.func.inst_operands(inst).iter().enumerate() {
+                    let operand = operand_rewrites.get(&i).unwrap_or(operand);
                     if let OperandConstraint::FixedReg(preg) = operand.constraint() {
                         match (operand.pos(), operand.kind()) {
                             (OperandPos::Late, OperandKind::Def) => {
-- 
2.43.0

