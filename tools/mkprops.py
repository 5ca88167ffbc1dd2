#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is the source of truth)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Indexing reaches exactly the addressed element and rejects everything else",
  "Indexing any array, slice or view with a multi-dimensional index gives the element of the underlying storage that the "
  "view's shape and origin assign to that index, and distinct indices give distinct elements; for dense arrays a linear index or range "
  "gives the elements at those positions in row-major order. An index or range with any component out of bounds, or with the wrong number of "
  "components, panics and never touches another element.",
  ["inputs", "configurations"], "every rank 0-6 and dynamic rank, every shape incl. zero and one sized dimensions, every view derivation, every in- and out-of-bounds index",
  "Tests index a handful of 3-D arrays at a few points; out-of-bounds cases and strided views over all ranks are not enumerated.",
  ["src/index/slice.rs", "src/mapping.rs", "src/slice.rs"],
  [("bounds check and offset computation per mapping", "src/mapping.rs: DenseMapping/StridedMapping::linear_index"),
   ("SliceIndex implementations", "src/index/slice.rs")],
  ["Index/IndexMut of Tensor, Array, View, ViewMut, Slice", "get_unchecked"])
p("C02", "Sub-array selection yields exactly the selected elements",
  "Selecting part of an array by index, range, stepped range (also with negative step), axis position, row, column, diagonal or split yields a view "
  "whose shape and elements are exactly the selected ones of the source, in order, for every chain of selections and for both shared and mutable views. "
  "A selection that is out of bounds panics, an in-bounds one (including empty selections at the end) does not.",
  ["inputs", "programs"], "every sequence of selections from every shape, with every in- and out-of-bounds argument",
  "Tests take a few fixed sub-views of one shape; chains of selections, empty/negative-step ranges and boundary arguments are unbounded.",
  ["src/index/view.rs", "src/index/axis.rs", "src/mapping.rs", "src/slice.rs", "src/view.rs"],
  [("DimIndex/ViewIndex range arithmetic", "src/index/view.rs"), ("Axis get/remove/resize/split", "src/index/axis.rs"),
   ("pointer offset guarded for empty views", "src/view.rs, src/slice.rs")],
  ["view/view_mut/array/tensor, at, axis_at, row, col, diag, split_at, split_axis_at and their into_ forms"])
p("C03", "Reshape, permute, reorder and remap keep elements and reject invalid requests",
  "Flattening and reshaping keep the row-major sequence of elements, permuting moves dimension p(i) of the source to dimension i, reordering reverses the dimensions, "
  "and changing the layout or shape type leaves every element where it is. A request that would change the number of elements, is not a permutation, "
  "does not match a constant dimension, or cannot be represented without copying panics instead of giving other elements.",
  ["inputs", "programs"], "every chain of view transformations from every shape and every target shape/permutation",
  "Tests use one or two shapes; the reshape algorithm on arbitrary strided views has many cases (merging, splitting, size-one and empty dimensions).",
  ["src/mapping.rs", "src/index/permutation.rs", "src/slice.rs", "src/view.rs", "src/shape.rs"],
  [("reshape/flatten of strided mappings", "src/mapping.rs: StridedMapping"), ("permutation check", "src/index/permutation.rs"),
   ("remap", "src/mapping.rs: Mapping::remap"), ("dimension inference for reshape", "src/shape.rs: Shape::reshape")],
  ["reshape, flatten, permute, reorder, remap, into_shape, into_flat, into_dyn, into_mapping"])
p("C04", "Mutable access is exclusive and writes reach exactly the addressed elements",
  "Mutable sub-views, both halves of a mutable split, and the items of mutable iterators over elements, axes, rows, columns or lanes that can be held at the same time never overlap, "
  "and together cover exactly what the shared form covers. A write through a mutable view, an assignment or a fill changes exactly the addressed elements of the underlying array and no others.",
  ["inputs", "programs"], "every mutable derivation chain and every position written",
  "Tests write through a few mutable views; overlap and stray writes are only visible over all shapes, strides and split points.",
  ["src/slice.rs", "src/view.rs", "src/expr/sources.rs", "src/expr/iter.rs", "src/index/axis.rs"],
  [("mutable split", "src/slice.rs: split_at_mut, split_axis_at_mut"), ("AxisExprMut/LanesMut", "src/expr/sources.rs"), ("ViewMut expression", "src/view.rs")],
  ["view_mut, *_mut, iter_mut, axis_expr_mut, lanes_mut, rows_mut, cols_mut, assign, fill, fill_with"])
p("C05", "Iteration visits every element exactly once in row-major order",
  "Iterating an array, view or expression yields each element exactly once in row-major order, then nothing however often it is asked again; the reported remaining length is exact after every step, "
  "and consuming the rest by internal iteration gives the same items as stepping.",
  ["inputs", "histories"], "every shape, layout and rank, every number of steps taken before, and after exhaustion",
  "Tests compare a few full iterations; partial iteration, empty and one-sized dimensions, every stride pattern and exhausted iterators are not covered.",
  ["src/expr/iter.rs", "src/view.rs", "src/mapping.rs"],
  [("outer/inner stepping", "src/expr/iter.rs: Iter::next/fold/step_outer/size_hint"), ("step_dim/reset_dim of views", "src/view.rs")],
  ["iter, iter_mut, into_iter, Iterator/ExactSizeIterator/FusedIterator of expr::Iter, Expression::fold/for_each"])
p("C06", "Zipping pairs elements by trailing dimensions and rejects mismatches",
  "Zipping two expressions pairs each element of the larger-rank operand with the element of the other at the same trailing indices, repeating the lower-rank operand over the leading dimensions, "
  "and the result has the larger-rank shape. Operands whose trailing dimensions differ, or that would have to be repeated although they can be consumed only once (moved or mutable elements), are rejected by a panic; "
  "assigning to an array rejects any source that does not broadcast to the target's own shape and leaves the target unchanged.",
  ["inputs", "programs"], "every pair of shapes, ranks, layouts and expression kinds",
  "Tests zip a few fixed shapes; pairing depends on the stepping of two different mappings for every rank difference and stride.",
  ["src/expr/adapters.rs", "src/slice.rs", "src/expr/iter.rs", "src/shape.rs"],
  [("shape merge and repeatability assertions", "src/expr/adapters.rs: Zip::new"), ("step/reset forwarding", "src/expr/adapters.rs: Zip"), ("assign shape check", "src/slice.rs: assign")],
  ["expr::zip, Expression::zip, Apply::zip_with, assign, operators"])
p("C07", "Axis and lane iteration enumerate exactly the sub-arrays of the chosen axis",
  "Iterating over an axis yields, for each position in order, the sub-array selected by fixing that position; iterating over lanes, rows or columns yields, for each index of the remaining dimensions in row-major order, "
  "the one-dimensional sub-array along that axis. Both agree with selecting the sub-arrays one by one, for any rank, layout, static or dynamic axis, also when some dimension is empty; an axis that does not exist panics.",
  ["inputs", "programs"], "every shape, layout, rank and axis, directly, zipped and partially iterated",
  "Tests iterate lanes of small arrays; more outer dimensions and strided parents are not covered (one such defect was present).",
  ["src/expr/sources.rs", "src/index/axis.rs", "src/mapping.rs"],
  [("AxisExpr, Lanes", "src/expr/sources.rs"), ("axis get/remove", "src/index/axis.rs")],
  ["axis_expr, outer_expr, lanes, rows, cols and _mut forms"])
p("C08", "Expressions evaluate each element once with the right arguments",
  "Evaluating an expression built from arrays, constant and function sources and the map, zip, enumerate, clone and copy adapters gives an array with the expression's shape whose element at each index is the composed function of the operand elements at that index. "
  "Every closure runs exactly once per element, in row-major order and with the index, count or element belonging to it.",
  ["inputs", "programs"], "every expression tree, shape, and way of consuming it (new array, appended, assigned, folded)",
  "Doc tests evaluate single adapters on short vectors; trees over several ranks and all evaluation targets are unbounded.",
  ["src/expr/adapters.rs", "src/expr/sources.rs", "src/expr/expression.rs", "src/tensor.rs", "src/array.rs"],
  [("adapters", "src/expr/adapters.rs"), ("sources", "src/expr/sources.rs"), ("evaluation", "src/tensor.rs, src/array.rs: from_expr, src/expr/expression.rs: clone_into_vec")],
  ["eval, eval_into, FromExpression, apply, map, from_fn, from_elem, fill, fill_with, enumerate, cloned, copied"])
p("C09", "Every element is owned once: moved out or dropped exactly once, never both",
  "Over every history of array operations, each element that was created is dropped exactly once or handed out exactly once to the caller, and no element is read after it was dropped or moved out. "
  "This includes partially consumed and leaked consuming iterators and drains, conversions between owned types, resizing in every direction, replacing contents by cloning, and zero-sized or empty arrays.",
  ["histories", "programs"], "every sequence of owning operations with every stopping point",
  "Tests use trivially droppable elements; double drops and leaks are invisible without ownership tracking and depend on where consumption stops.",
  ["src/raw_tensor.rs", "src/tensor.rs", "src/array.rs", "src/expr/into_expr.rs", "src/expr/buffer.rs"],
  [("IntoExpr with move index", "src/expr/into_expr.rs"), ("Drain", "src/expr/buffer.rs"), ("RawTensor vec/mapping synchronisation", "src/raw_tensor.rs"), ("copy_dim", "src/raw_tensor.rs")],
  ["drop of elements, tensors, arrays, IntoExpr, Drain"])
p("C10", "A panic in user code leaves arrays valid, with no element leaked or doubled",
  "If a closure, clone, comparison or iterator supplied by the user panics at any point during an array operation, every array that is still accessible afterwards is valid (its length matches its shape and holds only live elements), "
  "and after everything is dropped each created element has been dropped exactly once. Arrays only read from by the failed operation are unchanged. If it is an element's destructor that panics, elements may be lost, but every array still accessible is valid and no element is destroyed twice.",
  ["fault_sequences", "crash_points"], "a panic at every call of user code, destructors included, in every operation and array state",
  "No test injects panics.",
  ["src/raw_tensor.rs", "src/tensor.rs", "src/array.rs", "src/expr/expression.rs", "src/expr/buffer.rs"],
  [("DropGuard in with_mut_parts, copy_dim, zip_with, Array::from_expr", "src/raw_tensor.rs, src/tensor.rs, src/array.rs"), ("set_len after each write", "src/expr/expression.rs: clone_into_vec")],
  ["array state and drop counts after catch_unwind"])
p("C11", "Growing and shrinking a tensor keeps every element at its index",
  "Resizing keeps each element whose index exists in both shapes at that index and fills all new positions; expanding or appending adds the other array's elements after the existing ones along the first dimension (an empty target takes the other's shape); "
  "truncating, draining and clearing remove exactly the requested positions and close the gap. A request with the wrong rank, mismatching inner dimensions or an invalid range panics and leaves the array as it was.",
  ["histories", "inputs"], "every sequence of resize/expand/append/truncate/drain/clear with every argument",
  "Tests do one resize/expand on one shape; interactions between operations, empty states and every dimension order are not covered.",
  ["src/tensor.rs", "src/raw_tensor.rs", "src/expr/buffer.rs"],
  [("resize_with/copy_dim", "src/raw_tensor.rs"), ("expand, truncate, clear", "src/tensor.rs"), ("Drain", "src/expr/buffer.rs")],
  ["resize, resize_with, expand, eval_into, append, extend, truncate, drain, clear"])
p("C12", "Storage bookkeeping: length, capacity and shape always agree",
  "In every reachable state a tensor's length equals the product of its dimensions, its elements are stored contiguously in row-major order, its capacity is at least its length, and a successful reservation makes room for the requested additional elements. "
  "Reserving, shrinking, exposing or taking apart and rebuilding the storage never changes shape or elements, an over-large request fails without effect, and shapes whose size overflows are rejected.",
  ["histories", "inputs"], "every sequence of capacity and content operations; every requested size incl. overflowing ones",
  "Tests check capacity for one tensor; interleavings with growth/shrink and overflow arguments are not covered.",
  ["src/tensor.rs", "src/raw_tensor.rs", "src/shape.rs", "src/slice.rs"],
  [("with_mut_parts re-synchronisation", "src/raw_tensor.rs"), ("checked_len", "src/shape.rs")],
  ["len, capacity, dim, rank, stride, is_empty, is_contiguous, reserve*, try_reserve*, shrink_to*, spare_capacity_mut, into_raw_parts/from_raw_parts"])
p("C13", "Arithmetic operators apply element-wise with the right operands",
  "Each unary, binary and compound-assignment operator on arrays, slices, views, expressions and scalars gives the array of that operator applied to the paired elements, left operand on the left, with operands paired by trailing dimensions. "
  "The outcome does not depend on whether operands are owned, borrowed, or lazily evaluated, compound assignment changes only the left operand, and incompatible shapes panic.",
  ["inputs", "configurations"], "every operator, operand kind combination, shape pair and layout",
  "Tests apply a few operators to small integer arrays; most operator/operand-kind combinations and non-commutative order are unchecked.",
  ["src/ops.rs", "src/expr/adapters.rs", "src/tensor.rs", "src/array.rs"],
  [("operator macros", "src/ops.rs"), ("Apply for owned arrays (in place)", "src/tensor.rs: zip_with, src/array.rs")],
  ["Add..Shr, AddAssign..ShrAssign, Neg, Not implementations"])
p("C14", "Equality, hashing, search and debug output depend only on shape and elements",
  "Two arrays compare equal exactly if their shapes and corresponding elements are equal, whatever the array types, layouts, strides and shape kinds. "
  "Equal arrays hash equally, also through their borrowed forms, and search and debug output depend only on shape and elements; debug output nests one list per dimension.",
  ["inputs", "configurations"], "every pair of arrays, kinds and layouts, incl. empty arrays of different shape",
  "Tests compare a few equal arrays; unequal shapes with equal elements, empty arrays and strided/dense pairs over all kinds are not covered.",
  ["src/ops.rs", "src/slice.rs", "src/shape.rs", "src/view.rs", "src/tensor.rs", "src/array.rs"],
  [("PartialEq macro and Slice::eq", "src/ops.rs"), ("Hash, contains, Debug of Slice", "src/slice.rs")],
  ["==, !=, Hash, Borrow, contains, {:?}"])
p("C15", "Serialization round-trips and malformed input is rejected",
  "Serializing an array gives sequences nested one per dimension holding the elements in row-major order, identical for all array types and layouts with the same content. "
  "Deserializing such data into an array type of static rank gives back an equal array (dimensions after an empty one, which the data cannot show, come back as 0 or as their constant), "
  "and data that is ragged, of the wrong nesting depth, or not matching a constant dimension gives an error and never a panic or an array with other contents, whatever the format says in advance about the lengths.",
  ["inputs"], "every shape and content, every malformed nesting",
  "Tests check a few token sequences; raggedness at every position and depth is not covered.",
  ["src/serde.rs"],
  [("Serialize for Slice", "src/serde.rs"), ("ArrayVisitor/TensorVisitor", "src/serde.rs")],
  ["Serialize/Deserialize implementations"])
p("C16", "Conversions between array types keep shape, order and elements",
  "Converting between nested Rust arrays, vectors, slices, arrays, tensors and views of any shape kind, and building them with the macros, keeps all elements in row-major order and gives the corresponding shape. "
  "A fallible conversion succeeds exactly if the shapes match, and otherwise hands the original value back unchanged.",
  ["inputs", "configurations"], "every pair of convertible types, shape and content",
  "Tests convert a few shapes of low rank; each rank has its own generated implementation.",
  ["src/array.rs", "src/tensor.rs", "src/view.rs", "src/slice.rs", "src/macros.rs", "src/traits.rs"],
  [("From/TryFrom macros per rank", "src/array.rs, src/tensor.rs, src/view.rs"), ("array!/tensor!/view!", "src/macros.rs")],
  ["From, TryFrom, AsRef/AsMut, to_array/to_tensor/to_vec, into_vec, into_shape, into_scalar, FromIterator, macros"])
p("C17", "Static, constant and dynamic shapes behave alike",
  "The same operations on the same data give the same elements, dimensions, strides and accept/reject decisions whether the shape has static rank, constant-sized dimensions, a mixture, or dynamic rank. "
  "Converting between shape kinds succeeds exactly if rank and constant sizes match.",
  ["configurations", "programs"], "every operation chain under every shape kind",
  "Tests run each operation with one shape type; the generic code takes different branches per shape kind.",
  ["src/shape.rs", "src/dim.rs", "src/mapping.rs", "src/index/axis.rs"],
  [("Shape implementations for tuples and DynRank", "src/shape.rs"), ("Const/Dyn dims", "src/dim.rs")],
  ["all array operations"])
p("C18", "Arrays, views and expressions cross threads exactly when that is safe",
  "An array, expression or iterator that owns elements or borrows them exclusively can be sent to another thread exactly if the elements can, one that borrows them shared exactly if the elements can be shared, "
  "and a reference to any of them exactly if the elements can be shared, whatever the shape and layout. "
  "The parts that an array is divided into (splits, axis and lane expressions, mutable iterators) are disjoint, so threads that write their own parts at the same time leave the array as if each had done so alone, "
  "and iterators passed on between threads continue where they were.",
  ["configurations", "schedules"], "every kind of value, element type, shape kind and layout; every division of an array among threads and every order of their writes",
  "That a type cannot cross threads is a compile-time fact no test states, and a race shows only under some interleavings.",
  ["src/view.rs", "src/raw_tensor.rs", "src/expr/sources.rs", "src/expr/adapters.rs", "src/expr/into_expr.rs", "src/expr/iter.rs", "src/slice.rs"],
  [("Send/Sync of View and ViewMut", "src/view.rs"), ("Send/Sync of RawTensor", "src/raw_tensor.rs"), ("split_axis_at_mut, axis_expr_mut, lanes_mut", "src/slice.rs")],
  ["Send, Sync, split_axis_at_mut, into_split_axis_at, axis_expr_mut, lanes_mut, iter_mut, into_iter, drain"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
