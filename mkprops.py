#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property is edited)."""
import json, os
P = []
TK="src/free_tensor/tensor_basis/tensor_key.rs"; TB="src/free_tensor/tensor_basis/mod.rs"; KI="src/free_tensor/tensor_basis/key_iterator.rs"
SD="src/vector/implementation/simple_dense_vector.rs"; SS="src/vector/implementation/simple_sparse_vector.rs"; DI="src/vector/implementation/deref_impl.rs"
VT="src/vector/traits/vector.rs"; VE="src/vector/traits/extension.rs"; DV="src/vector/traits/dense_vector.rs"
DT="src/free_tensor/implementation/dense.rs"; FT="src/free_tensor/mod.rs"; AL="src/algebra/mod.rs"; IM="src/implementation.rs"
CO="src/coefficients/mod.rs"; FP="src/coefficients/floating_point_fields.rs"
DR="src/lie/lie_basis/degree_range_map.rs"; HS="src/lie/lie_basis/hall_set.rs"; HK="src/lie/lie_basis/hall_key.rs"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

WID="every alphabet width (one letter, powers of two and their neighbours, up to 2^31-1) and every word up to the maximum depth of that width"

p("C01","A tensor word keeps exactly the letters it was given",
  "A tensor key built from a sequence of letters of its alphabet (in one go, from a single letter, by prepending letters one at a time, or as the empty word) reports exactly that length and those letters: indexing and the letter list read them from the last letter to the first, the letter iterator from the first to the last. Every word up to the maximum depth of the width is representable, a longer one is refused with a panic, and the maximum depth is (64-s) div b letters, where b is the number of bits of the width and s the base-2 logarithm (rounded down) of 63 div b. Two keys are equal exactly when they are the same word.",
  ["inputs","configurations"], "For "+WID+"; all ways of building the word.",
  "The tests use one width (3) and words of at most five letters; packing errors appear only at other widths, at deep positions of the 64-bit word or when neighbouring letters have particular bits.",
  [TK,IM],[("letters packed bits_per_letter bits apart",TK),("from_letters panics above max_depth",TK)],
  state=[("size,data","length and packed letters of the word",TK)],observe=["to_letters","get_letter","size","max_depth","TensorKeyIterator"],
  hook="verif_iter: the constructor of the letter iterator is not public")
p("C02","Concatenation of words is the free monoid product",
  "Concatenating two words gives the word whose letters are those of the left operand followed by those of the right operand; the empty word is neutral and concatenation is associative. When the combined length exceeds the maximum depth the call panics instead of returning some other word. The operands are unchanged.",
  ["inputs","configurations"], "For every pair of words over every width, including pairs whose lengths add up to exactly the maximum depth and one more.",
  "One test concatenates two single letters at width 3; splits of a full-depth word, the empty operand and overlong results are never reached.",
  [TK],[("concatenate shifts the left word by the size of the right one and refuses overlong results",TK)],observe=["TensorKey::concatenate"])
p("C03","Words and indices correspond one to one",
  "The index of a word is its position (from 0) in the list of all words ordered first by length and then letter by letter from the first letter, so distinct words have distinct indices without gaps. Turning the index of a word back into a word returns that same word, and the other way round for every index whose word does not exceed the maximum depth.",
  ["inputs","configurations"], "For "+WID+", including indices at the first and last word of every degree and those above 2^32.",
  "Tests enumerate indices 0 to 39 at width 3 only; carries at other widths, deep words and large indices are untested.",
  [TB,TK],[("key_to_index Horner evaluation",TB),("index_to_key bijective base-N digits",TB)],observe=["key_to_index","index_to_key"])
p("C04","Key comparison is the graded lexicographic order",
  "Comparing two words orders a shorter word before a longer one and words of equal length by their first differing letter; it is a total order, reports equality exactly for equal words, and always agrees with comparing the indices of the two words.",
  ["inputs","configurations"], "For every pair (and, for transitivity, triple) of words over every width.",
  "Three tests compare fixed pairs at width 3, none with a long word of small letters against a short word of large letters.",
  [TB],[("compare on (length, packed letters)",TB)],observe=["OrderedBasis::compare"])
p("C05","Enumeration visits every word once, in order, and then stops",
  "Iterating over the keys of the tensor basis, from the beginning or from any given word, yields that word first and then each following word of the graded lexicographic order exactly once, without gaps or repeats. It ends after the last word of the maximum depth and never yields anything afterwards.",
  ["inputs","histories","configurations"], "For every width and every starting word, at every step of the iteration, including carries across all letters, changes of length and the end.",
  "Tests make at most two steps from four starting words at width 3; long carries, words of three letters and the end of the iteration are not reached.",
  [KI,TK],[("odometer with carry in next",KI),("set_letter/push_front",TK)],state=[("current","next word to be yielded, None after the last one",KI)],observe=["TensorBasis::iter_keys","TensorBasisIterator::starting_from","next"])
p("C06","Degrees are contiguous blocks of indices of the right size",
  "For width N the words of degree d occupy exactly the N^d consecutive indices starting at 1+N+...+N^(d-1), and the degree of an index is the length of the word at that index, also for the one-letter alphabet. The vector dimension reported for a word or an index is the start of the next degree, so it always covers all words of that degree and no longer ones.",
  ["inputs","configurations"], "For every width and every degree up to the maximum depth for which the bounds are representable, and every index at or next to a block boundary.",
  "The block arithmetic is only exercised indirectly through vectors of degree at most two at width 3; width one and deep degrees behave differently.",
  [TB],[("start_of_degree",TB),("index_to_degree",TB),("vector_dimension_for_key/index",TB)],observe=["start_of_degree","index_to_degree","vector_dimension_for_key","vector_dimension_for_index","degree","max_degree"])
p("C07","Rendered keys and vectors show exactly their content",
  "A tensor key is rendered, identically for display and debug, as its letters in the order of its letter list, separated by a comma and a space, in parentheses. A dense vector is rendered as the concatenation, in index order, of every stored coefficient immediately followed by the key it belongs to; rendering always terminates.",
  ["inputs"], "For every word over every width and every dense vector over them, whatever its size.",
  "No test renders anything.",
  [TK,SD],[("Debug/Display for TensorKey",TK),("Display for SimpleDenseVector",SD)],observe=["Display","Debug"])
p("C08","Vectors built from keys and scalars have exactly those coefficients",
  "A dense vector built from a key, a key and a scalar, or any list of key and scalar pairs in any order has as coefficient of each key the sum of the scalars given for it, and zero for every other key; an empty list gives the zero vector. Its dimension is exactly the basis' vector dimension for its highest key, so it covers that key's whole degree.",
  ["inputs","configurations"], "For every list of pairs (unordered, with repeats, empty, with zero or cancelling scalars), every width, for tensor bases and for user defined ordered bases.",
  "Tests build three short lists over a toy basis of fixed dimension 255; the dimension computed from the largest index and the unchecked writes are never exercised with a real basis.",
  [SD],[("from_iterator sorts by index and accumulates",SD),("from_key_scalar unchecked write",SD)],observe=["from_key","from_key_scalar","from_iterator","from_dimension"])
p("C09","Dense vector arithmetic is coefficient-wise, whatever the sizes",
  "Negation, addition, subtraction, multiplication and division by a scalar, and the fused forms that add or subtract a scaled vector act on every coefficient exactly as the field does, treating coefficients beyond the stored size as zero, for operands of any two sizes (empty ones included). The in-place, out-of-place, left and right forms of an operation all give the same vector, and results never lose or move a coefficient.",
  ["inputs","histories"], "For all vectors, sizes and scalars, and all sequences of such operations on the same vectors.",
  "Tests add and subtract vectors of the same size once each; the scalar test runs on empty vectors; operands of different sizes, division and the fused forms are untested.",
  [SD,VT],[("default methods of the vector trait",VT),("resize then zip in add_inplace and sub_inplace",SD)],state=[("coefficients","the stored coefficient sequence",SD)],observe=["Vector arithmetic methods"])
p("C10","Reading and updating coefficients behaves like a map",
  "Reading a key's coefficient returns the value last stored for it by an insertion, an update through a mutable reference or an arithmetic operation, and nothing or zero if there is none; inserting grows the vector when the key lies beyond it, the last of several insertions for a key wins, erasing makes the coefficient zero, clearing makes all of them zero, and swapping exchanges two vectors. Resizing sets the size exactly, keeps the coefficients that fit and fills with zeros; the slice views show exactly the stored coefficients and reject out-of-range requests. Nothing but the addressed coefficients changes, and the reported degree is that of the last stored coefficient.",
  ["inputs","histories"], "For every sequence of these operations on vectors of any size and every key, inside and beyond the stored size.",
  "No test calls any of these operations.",
  [SD,DV],[("get/get_mut/insert_single/insert/erase/clear/swap/resize",SD),("get_slice/get_mut_slice",DV)],state=[("coefficients","the stored coefficient sequence",SD)],observe=["get","get_mut","as_slice","degree","size"])
p("C11","Sparse vectors obey the same vector semantics",
  "A sparse vector built, read, updated, iterated, compared and combined through any sequence of operations has for every key the coefficient given by coefficient-wise arithmetic and map semantics, exactly as a dense vector would; construction adds up repeated keys. Iterating yields every stored key exactly once with its coefficient, and a coefficient that cancels to zero reads as zero or absent.",
  ["inputs","histories"], "For all key sets, scalars and sequences of operations on several sparse vectors.",
  "The module's tests are commented out: nothing is tested.",
  [SS,VT],[("HashMap of coefficients with removal on cancellation",SS)],state=[("map","stored coefficient of each key",SS)],observe=["SimpleSparseVector: Vector methods, iteration, equality"])
p("C12","Borrowed storage is transparent and never written behind the owner's back",
  "A dense vector over borrowed coefficients behaves in every operation exactly like one that owns the same coefficients. The slice behind a read-only borrow is never modified; the slice behind a mutable borrow always equals the vector's coefficients until an operation changes the vector's size or replaces it, from which point on the slice is left alone.",
  ["inputs","histories"], "For every sequence of operations mixing owned, read-only borrowed and mutably borrowed vectors, including swaps between them.",
  "No test uses borrowed storage at all.",
  [SD],[("copy on write in as_mut_slice and resize",SD)],state=[("storage mode","owned, borrowed or mutably borrowed slice",SD)],observe=["the lent slices after every operation"],
  hook="verif_borrowed, verif_borrowed_mut: nothing public constructs the borrowed modes")
p("C13","Wrapper vector types behave exactly like the vector they wrap",
  "A type that wraps a vector and dereferences to it, such as the dense tensor type, gives for every construction, access, update and arithmetic operation the same result as applying that operation to the wrapped vector, and every call returns. Wrapping and unwrapping do not change the vector.",
  ["inputs","histories"], "For every vector operation, through library and user defined wrappers, on all vectors and scalars.",
  "No test uses a wrapper type.",
  [DI,DT],[("blanket vector implementation for dereferencing types",DI),("conversions of the dense tensor",DT)],observe=["DenseTensor","user types implementing Deref"])
p("C14","Equality is exact and copies are independent",
  "Two vectors compare equal when they store the same coefficients and unequal when any coefficient differs, however they are stored; comparison is reflexive and symmetric. A clone or owned copy equals its source at the time of copying, and later changes to either never show in the other.",
  ["inputs","histories"], "For all pairs of vectors (dense of all storage modes and sizes, sparse, wrapped), and all histories of changes after copying.",
  "Tests compare slices, not vectors, and never copy.",
  [SD,SS],[("PartialEq",SD),("Clone, to_owned",SD),("PartialEq",SS)],observe=["==","clone","to_owned"])
p("C15","Accumulating into one coefficient changes that coefficient by that amount",
  "Adding or subtracting a scalar, or the quotient of one by a scalar, to the coefficient of a key changes that coefficient by exactly that amount, whether or not the vector already stores the key, and changes no other coefficient.",
  ["inputs","histories"], "For every vector (dense, sparse, wrapped), key inside or beyond the stored size, scalar, and sequence of accumulations.",
  "No test calls these methods.",
  [VE],[("get_mut or insert_single branch of each method",VE)],observe=["add_scalar_multiply","sub_scalar_multiply","add_scalar_divide","sub_scalar_divide"])
p("C16","The tensor product is the truncated concatenation product",
  "The product of two tensors up to degree D has as coefficient of each word of length at most D the sum, over all ways of splitting the word in two, of the left tensor's coefficient of the first part times the right tensor's coefficient of the second part, and zero for longer words. This holds for operands of every size, including empty ones, single constants and sizes that end inside a degree, and for D below, at and above the sum of the operands' degrees; the operands are unchanged.",
  ["inputs","configurations"], "For every pair of tensors over every width and every truncation degree.",
  "One test multiplies two single letters at width 3.",
  [DT,TB],[("degree-wise outer products into the output block",DT),("degree_range",TB)],observe=["multiply","multiply_and_add_into_impl"])
p("C17","Every derived product operation computes its formula",
  "In-place multiplication replaces a tensor by its product with the argument; the accumulating forms add to or subtract from the target the product of two tensors; the commutator is the difference of the two products; the scaled in-place forms give the product multiplied or divided by the scalar; a function passed to the primitive forms is applied to each product of coefficients. All are truncated at the given degree, for operands of any size, and asking for a product without a degree panics.",
  ["inputs","histories","configurations"], "For all targets, operands (the target's own copy included), scalars, degrees and sequences of these operations.",
  "No test calls any of them.",
  [AL,DT],[("default methods of the algebra trait",AL),("multiply_into_impl",DT)],observe=["multiply_inplace","add_mul","sub_mul","commutator","mul_scal_lprod","mul_scal_rprod","mul_rat_ldiv","mul_rat_rdiv"])
p("C18","The truncated tensor algebra satisfies the laws of an associative algebra",
  "For tensors truncated at the same degree, multiplication is associative and bilinear, the tensor of the empty word is its two-sided unit, and the commutator is antisymmetric and satisfies the Jacobi identity. Multiplying tensors of single words gives the tensor of the concatenated word, or zero if it is too long.",
  ["inputs","configurations"], "For all triples of tensors, scalars, widths and truncation degrees.",
  "No test multiplies more than two tensors.",
  [AL,DT],[("multiply",AL),("multiply_and_add_into_impl",DT)],observe=["multiply","add","sub","scalar multiplication","commutator"])
p("C19","Exponential, logarithm and fused exponential are their power series",
  "Up to and including the maximum degree, the exponential of a tensor without constant term is the sum of its powers divided by factorials, the logarithm of a tensor with constant term one is the alternating sum of the powers of its non-constant part divided by their exponents, and the fused form multiplies its target by the exponential of the argument without its constant term. Hence logarithm and exponential are inverse to each other, and the fused form agrees with multiplying by the exponential; arguments are unchanged.",
  ["inputs","configurations"], "For every tensor of the stated kind of any stored size, every width and every maximum degree.",
  "No test calls any of them.",
  [FT,AL],[("Horner evaluation of the series",FT)],observe=["FreeTensor::exp","FreeTensor::log","FreeTensor::fmexp"])
p("C20","Floating point coefficients implement the field operations",
  "For 32 and 64 bit floating point coefficients the sum, difference, product, quotient, negation, inverse, the conversion from a degree and from a fraction, and the constants zero, one and minus one equal the correctly rounded mathematical results, in particular exact ones whenever representable, infinity of the right sign when too large; the in-place forms store and return the same value as the out-of-place forms.",
  ["inputs"], "For all finite floating point values, subnormal ones included (divisors not zero), including results halfway between two values, results too small to be normal and results too large to be finite.",
  "No test calls these operations on their own.",
  [FP,CO],[("CoefficientField for f32 and f64",FP),("from_rational default",CO)],observe=["CoefficientField methods"])
p("C21","Hall set sizes follow Witt's formula and survive growth",
  "The number of Hall basis elements up to a degree reported for a width is the sum over the degrees of the number of Lyndon words of that length over that many letters, for every degree, however the table reached that degree (created large enough or grown in any steps); degrees beyond the table are an error. Growing never changes or removes an entry and always reaches the requested degree.",
  ["inputs","histories","configurations"], "For every width N and degree d with N^d below 2^63, and every sequence of growth requests (also smaller than the current size).",
  "Tests check five degrees at width 5 on a table that is never grown; the Moebius function is reached only at arguments up to five.",
  [DR],[("Witt's formula with Moebius function",DR),("DegreeRangeMap::grow",DR)],state=[("sizes","cumulative number of Hall elements per degree",DR)],observe=["DegreeRangeMap::new","grow","get"],
  hook="lie::verif re-exports the private module")
p("C22","The degree of a Hall key is found from its position",
  "Looking up the degree of the k-th Hall basis element (counted from 1) gives the smallest degree up to which there are at least k elements; a key beyond the known table, or any key of an empty table, is an error and not a wrong degree.",
  ["inputs","histories","configurations"], "For every width, table size, growth history and key, in particular the first and last key of every degree.",
  "No test looks up a degree.",
  [DR],[("partition point over the cumulative sizes",DR)],observe=["DegreeRangeMap::find_deg"],hook="lie::verif re-exports the private module")
p("C23","There is one shared Hall set per width, for any number of threads",
  "Every request for the Hall set of a width returns and refers to one and the same set for the lifetime of the process, and different widths have different sets, however many threads ask concurrently and whatever degree they ask for; no request ever blocks forever. The set classifies exactly the keys 1 to the width as letters, reports the cumulative sizes at a degree and the next one as the range of that degree for every degree below the number of degrees it starts with (30 for two letters, 20 for three to five, 8 for six to ten, 3 for eleven to twenty, 2 otherwise) less one, never a wrong range for other degrees, and answers queries about elements it does not hold with an error instead of a panic.",
  ["schedules","histories","configurations"], "For all interleavings of requests by several threads for several widths, starting from an empty cache.",
  "No test obtains a Hall set, let alone from several threads.",
  [HS],[("read then write lock on the cache with insertion under the write lock",HS)],state=[("HALL_SET_CACHE","the Hall set of each width",HS)],observe=["get_hall_set","HallSet methods"],
  hook="lie::verif re-exports the private module; verif_id identifies the shared set")
p("C24","A Hall key keeps its key, parents and degree",
  "A Hall key made of a key number and parents below 2^18 and a degree below 2^10 reports exactly those four values; a letter has itself as right parent, no left parent and degree one. It is a letter exactly when its degree is one, valid exactly when it is not the empty key, its index is its key number minus one, and it is rendered as its number if it is a letter and as the bracket of its parents otherwise.",
  ["inputs","configurations"], "For all field values up to the limits, and all widths.",
  "No test creates a Hall key.",
  [HK,IM],[("bit fields of 18, 18, 18 and 10 bits",HK)],observe=["HallKey accessors, Debug, Display"],
  hook="lie::verif re-exports the private module; verif_from_parts builds keys of higher degree")
p("C25","Operations change only their target and stay inside their memory",
  "An operation on vectors changes nothing but the vector it is called on (and, for swapping, the other one): all operands passed by reference and all unrelated vectors keep their coefficients. No operation, whatever the sizes of its operands and even if it panics, reads uninitialised coefficients or writes outside the storage of the vectors involved.",
  ["inputs","histories"], "For every operation of the library on vectors of every combination of sizes, in every order.",
  "Tests look only at the result of single operations on well-formed operands; out-of-bounds accesses of the unchecked code go unnoticed.",
  [SD,DT],[("unchecked indexing guarded by dimension computations",SD),("pointer walk over the output block",DT)],observe=["all live vectors and guard zones around every heap block after each operation"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
