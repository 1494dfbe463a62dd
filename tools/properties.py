# Descriptions of the properties; read by make_manifest.py.

prop("A01", "Arf construction and value semantics are exact",
     "A floating point number built from a mantissa and an exponent, from an integer, from a double or from a binary string has exactly the value it was built from, whatever its size. Copies, moves, swaps and assignments transfer exactly that value, and changing one number never changes another.",
     ["inputs", "histories"], "All mantissas, exponents (also beyond 32 and 64 bits), machine integers, doubles and digit strings; all sequences of copies, moves, swaps and assignments of several numbers.",
     "The tests build a handful of small numbers; multi-limb mantissas, huge exponents, limits of the integer types and interleaved copy, move and swap histories are not sampled.",
     [A, AC], [("constructors and assignment operators", AC), ("FLINT arf_t ownership", AC)],
     "property-based testing against an exact dyadic model (GMP)",
     "Random structured search (and libFuzzer in the thorough tier) against values recomputed independently with GMP integers; trusts GMP and the conversion of results to dyadics through arf_get_fmpz_2exp.")

prop("A02", "Arf comparisons are the order of the real numbers",
     "All of ==, !=, <, <=, > and >= between floating point numbers, and between them and signed machine integers in either order, agree with the order of the exact values including infinities. Sorting or storing them in a set gives the order and the number of distinct values.",
     ["inputs"], "All pairs of finite or infinite numbers of any size, all integer types and values that can be compared to.",
     "Comparisons are tested on few numbers; near ties, values that agree in the leading bits and limits of integer types are not.",
     [A, AC, L + "exact-real/yap/terminal.hpp"], [("comparison operators through boost::totally_ordered", A), ("ordering predicates", AC)],
     "property-based testing against exact dyadic comparison",
     "Random search biased to near ties; unsigned long values beyond LONG_MAX are outside the documented interface (long).")

prop("A03", "Arf sign, shifts, integer parts and exponents are exact",
     "Negation, absolute value, shifts by powers of two, floor and ceiling of a floating point number are the exact mathematical results. The mantissa and exponent it reports are the odd mantissa and exponent of its value, and the binary logarithm reported brackets the absolute value between consecutive powers of two.",
     ["inputs"], "All finite numbers, all shift counts representable by a long including the extremes.",
     "Only a few small positive numbers are tested; negative numbers, halves, huge exponents and extreme shift counts are not.",
     [A, AC], [("shift operators", AC), ("floor and ceil", AC)],
     "property-based testing against exact dyadic arithmetic",
     "Random search; exponents are arbitrary precision, values whose integer part would be gigabytes are avoided.")

prop("A04", "Arf to double conversion and printing are faithful",
     "Converting a floating point number to a double rounds to the nearest double, ties to even, including subnormal numbers, underflow and overflow. A double survives a round trip unchanged, and what is printed can be read back as the exact value or, for integers, as the value of its double approximation.",
     ["inputs"], "All finite and infinite numbers, all doubles, all sequences of numbers printed to one stream.",
     "The tests convert and print few well behaved values; halfway cases, subnormals, overflow and stream state are not sampled.",
     [A, AC], [("conversion to double", AC), ("stream operator", AC)],
     "property-based testing against correctly rounded conversion by integer arithmetic",
     "Random search biased to halfway points and the subnormal range; large integers are printed as doubles by design.")

prop("A05", "Arf expressions round correctly at every step",
     "Evaluating an arithmetic expression in floating point numbers at a precision with a rounding mode gives the same as evaluating its operations one by one in exact arithmetic and rounding each result correctly to that precision in that mode. This holds for every shape of expression, for every operand type, for nested changes of precision and rounding, and whether or not parts of the expression were stored before.",
     ["programs", "inputs"], "All expressions over +, -, *, / and negation with numbers, integers and doubles as leaves; all precisions and the five rounding modes.",
     "Tests contain a handful of fixed expressions; each expression shape instantiates different code, and rounding errors show only for operands that are hit by double rounding or by the wrong mode.",
     [A, YT, L + "exact-real/yap/arf_expr.hpp", L + "exact-real/yap/arf.hpp"], [("expression template evaluation", L + "exact-real/yap"), ("directed rounding of each operation", L + "exact-real/yap")],
     "generated programs: random expression templates compiled and run on random operands against step-wise correct rounding",
     "Several hundred expression shapes are generated from the seed, compiled against the current headers and run on random operands; division and rounding are recomputed with exact rationals.")

prop("A06", "In-place and aliased Arf updates equal the out-of-place result",
     "Assigning an expression to a number that occurs in it, and updating a number in place by +=, -=, *= or /=, gives the same value as computing the expression into a fresh number. No other operand changes.",
     ["programs", "inputs"], "All expressions whose target also occurs as an operand in any position; all in-place operators with any operand, including the number itself.",
     "Aliasing bugs only show for certain positions of the target in the expression; tests exercise only a few.",
     [A, AC, YT], [("assignment of expressions", A), ("compound assignment", YT)],
     "generated programs: random aliased assignments against step-wise correct rounding",
     "As A05, with targets that occur in the expression; other operands are checked to be unchanged.")

prop("B01", "Balls contain the value they are constructed from",
     "A ball constructed from an integer, double, floating point number, rational, pair of end points, number field element or decimal string contains the value described; it is exact whenever the value is an exactly representable number and no precision was given, and its radius is as small as the requested precision promises otherwise.",
     ["inputs"], "All values of the source types, all precisions, all well formed strings.",
     "Tests use a few values; containment fails only for values whose error is rounded in the wrong direction.",
     [L + "exact-real/arb.hpp", L + "src/arb.cc"], [("constructors", L + "src/arb.cc")],
     "property-based testing against exact rational containment",
     "Random search; containment is decided with exact rationals, number field elements with an independent isolating interval.")

prop("B02", "Ball comparisons are sound and decisive",
     "Comparing balls with balls, integers or rationals gives an answer only if it holds for all points of the balls, gives an answer whenever all points agree on it, and no answer otherwise. Every comparison operator is consistent with its mirrored and its negated form.",
     ["inputs"], "All pairs of balls (exact, wide, touching, infinite) and all integers and rationals, in either order.",
     "Wrong verdicts need touching end points or rationals within the radius; the tests have few comparisons.",
     [L + "exact-real/arb.hpp", L + "src/arb.cc"], [("comparison operators returning an optional", L + "src/arb.cc")],
     "property-based testing against exact interval comparison",
     "Random search biased to touching balls; end points are compared with exact rationals.")

prop("B03", "Ball expressions enclose the exact result",
     "For every choice of points in the operand balls, the value of an arithmetic expression at these points lies in the ball that evaluating the expression at any precision returns. The result is as tight as step-wise ball arithmetic at that precision, and this holds for stored, aliased and in-place evaluation alike.",
     ["programs", "inputs"], "All expressions over +, -, *, / and negation with balls, floating point numbers, integers and doubles as leaves; all precisions.",
     "Each expression shape instantiates different code; containment is lost only for certain operands and precisions. Tests contain few fixed expressions.",
     [L + "exact-real/arb.hpp", L + "exact-real/yap/terminal.hpp", L + "exact-real/yap/arb_expr.hpp", L + "exact-real/yap/arb.hpp"], [("expression template evaluation", L + "exact-real/yap"), ("assignment", L + "src/arb.cc")],
     "generated programs: random expression templates compiled and run on random balls, sampled points evaluated exactly",
     "Containment of exactly evaluated sample points (end points, midpoints, random points) plus step-wise comparison of radius and bits with FLINT called directly.")

prop("B04", "Ball bounds, conversions, copies and printing are faithful",
     "The lower and upper bounds of a ball enclose all of it and are as close as promised by the precision, an exact ball is recognised as such, and its midpoint converts to the nearest double. Copies, moves, swaps and assignments preserve the ball exactly, and the decimal text printed denotes a ball that contains the printed one at any stream precision.",
     ["inputs", "histories"], "All balls including infinite ones and balls much wider than their midpoint; all copy, move and swap histories; all stream precisions.",
     "Tests use a few balls of moderate radius.",
     [L + "exact-real/arb.hpp", L + "src/arb.cc"], [("bounds", L + "src/arb.cc"), ("stream operator", L + "src/arb.cc")],
     "property-based testing against exact rational containment and a value model",
     "Random search; printed text is parsed independently and compared as exact rationals.")

prop("S01", "Seeds are fresh and determine random numbers",
     "Every implicitly created seed differs from all seeds created implicitly before it in the process, also when seeds are created in several threads at the same time. Random numbers created with the same explicit seed and the same bounds are the same number with the same digits, and numbers with different seeds are different.",
     ["histories", "inputs", "schedules"], "All sequences in which seeds are created implicitly and explicitly, interleaved with the creation of random numbers; all seed values; all schedules of threads that create seeds.",
     "The tests create one seed; freshness and determinism are statements about histories.",
     [L + "exact-real/seed.hpp", L + "src/seed.cc", L + "src/random_real_number.cc"], [("global counter", L + "src/seed.cc"), ("weak pointer factory", L + "src/external/unique-factory")],
     "stateful property-based testing of creation histories against a model",
     "Random histories in one process and in forked processes; threads that create seeds at the same time.")

prop("R01", "Approximations have the requested relative accuracy",
     "An approximation of a real number (random, rational, or product) with a given number of bits has a relative error of at most two to the minus that number of bits. Approximations at different precisions requested in any order are consistent with one number.",
     ["inputs", "histories"], "All real numbers that can be built, all precisions, all orders of requests.",
     "A single bit lost shows only for few numbers and precisions; tests look at fixed seeds and few precisions.",
     [L + "exact-real/real_number.hpp", L + "src/random_real_number.cc", L + "src/constrained_random_real_number.cc", L + "src/rational_real_number.cc", L + "src/real_number_product.cc"], [("arf", L + "src")],
     "property-based testing against much more precise enclosures",
     "The true value is enclosed by an approximation with hundreds of additional bits; that one number underlies all precisions is itself part of what is checked.")

prop("R02", "Balls of real numbers contain them with the promised accuracy",
     "The ball returned for a real number at a precision contains the number and has exactly the requested accuracy; refining a ball that contains the number yields a ball that contains it, lies in the original up to rounding, and has at least the requested accuracy.",
     ["inputs", "histories"], "All real numbers, precisions, starting balls and sequences of refinements.",
     "Containment is lost by one unit in the last place for few inputs; tests sample fixed ones.",
     [L + "exact-real/real_number.hpp", L + "src/real_number.cc"], [("arb and refine", L + "src/real_number.cc")],
     "property-based testing of refinement histories against precise enclosures",
     "As R01.")

prop("R03", "Comparisons of real numbers are one total order",
     "Comparing real numbers with each other, with integers of any type, rationals, floating point numbers and balls agrees with the order of the exact values, however many leading digits agree. The six operators are consistent in both orders of the operands, and a ball is undecided exactly when the number cannot be separated from it.",
     ["inputs"], "All pairs of real numbers, scalars that agree with the number in arbitrarily many digits, balls with end points arbitrarily close to the number.",
     "Wrong answers need operands that agree to many digits or limits of integer types; tests use well separated values.",
     [L + "exact-real/real_number.hpp", L + "src/real_number.cc"], [("cmp with increasing precision", L + "src/real_number.cc")],
     "property-based testing against precise enclosures",
     "Scalars are derived from approximations of the number itself so that hundreds of bits agree.")

prop("R04", "Random numbers respect the bounds they were created with",
     "A random number created in an interval lies in that interval for every interval, one created without bounds lies between zero and one, and one created close to a finite double has that double as its closest double. Numbers with different seeds do not all end up in the same small part of the interval. Invalid intervals and doubles that are not finite are rejected with an exception.",
     ["inputs"], "All intervals with floating point end points of any size, all finite doubles including subnormal and the largest ones, all seeds.",
     "Tests draw from few fixed intervals; tiny, huge, negative and very asymmetric intervals are not sampled.",
     [L + "exact-real/real_number.hpp", L + "src/constrained_random_real_number.cc"], [("random with bounds", L + "src/constrained_random_real_number.cc")],
     "property-based testing",
     "Random search over intervals, doubles and seeds; membership decided at high precision; the numbers with a hundred seeds are not all in the same quarter.")

prop("R05", "Products of real numbers form a commutative monoid",
     "Multiplying real numbers gives the same number for every order and parenthesisation of the factors, its value is the product of the values, and the product of rationals is their exact product. Dividing by a factor gives the product of the remaining ones, and division succeeds exactly if the divisor divides the product.",
     ["inputs", "histories"], "All multisets of random and rational factors, all orders and parenthesisations, all divisors.",
     "The tests multiply a few numbers in one order.",
     [L + "exact-real/real_number.hpp", L + "src/real_number_product.cc", L + "src/real_number.cc"], [("canonical multiset of factors", L + "src/real_number_product.cc")],
     "property-based testing against a multiset model",
     "Random products against a model of factor multisets and enclosures of the value; products of a rational other than one with a random number are documented to be unsupported.")

prop("R06", "Equal real numbers are one object, however they were created",
     "While a number is referenced anywhere, creating it again in any way yields the identical object; after all references were dropped, creating it again yields the same value with the same digits. Distinct numbers are never identified.",
     ["histories", "schedules"], "All histories of creating, sharing and dropping random, rational and product numbers, also in several threads.",
     "A statement about histories of object lifetimes; tests look at single steps.",
     [L + "src/random_real_number.cc", L + "src/constrained_random_real_number.cc", L + "src/rational_real_number.cc", L + "src/real_number_product.cc"], [("unique factory of weak pointers", L + "src/external/unique-factory")],
     "stateful property-based testing of creation histories",
     "Random histories; values are compared digit by digit.")

prop("R07", "The degree lexicographic order is a monomial order",
     "The order on products of real numbers is a strict total order that refines the number of factors and is compatible with multiplication by any further factor.",
     ["inputs"], "All triples of products of random numbers.",
     "Transitivity and compatibility with multiplication quantify over triples of products; tests compare few pairs.",
     [L + "exact-real/real_number.hpp", L + "src/real_number_product.cc", L + "src/random_real_number.cc"], [("deglex", L + "src")],
     "property-based testing of order axioms",
     "Random triples; the axioms are the oracle.")

prop("R08", "Real numbers convert to the closest double",
     "Converting a real number to a double gives the nearest double, with ties rounded to even, also in the subnormal range, beyond the largest double, and for rationals arbitrarily close to a tie.",
     ["inputs"], "All rationals and all random numbers and products.",
     "Only values within a hair of a tie or in the subnormal range are difficult, none of which are tested.",
     [L + "exact-real/real_number.hpp", L + "src/real_number.cc", L + "src/rational_real_number.cc"], [("conversion to double", L + "src/real_number.cc")],
     "property-based testing against exact rounding of rationals",
     "Random rationals biased to ties; exact integer arithmetic is the oracle.")

RINGS = [L + "exact-real/integer_ring.hpp", L + "exact-real/rational_field.hpp", L + "exact-real/number_field.hpp", L + "src/integer_ring.cc", L + "src/rational_field.cc", L + "src/number_field.cc"]
prop("G01", "The coefficient rings perform exact arithmetic",
     "The static operations of the rings of integers, rationals and of embedded number fields (scaling coefficients in place with integers of all types, rationals and field elements, floor, units, conversion to rationals, approximation by balls) agree with exact arithmetic; divisions that leave the ring are rejected with an exception; floor rounds towards negative infinity; approximations contain the coefficient; two rings are equal exactly if they are the same field (the same polynomial, root, and name of the generator), however close the generators of the fields are, and the compositum of a field with the rationals is that field.",
     ["inputs"], "All coefficients in each ring, all scalar types including their extreme values, number fields with algebraic numbers arbitrarily close to integers, pairs of fields that hardly differ.",
     "Signs, divisibility, limits of integer types and near-integers need specific values; the tests use a few small positive ones.",
     RINGS, [("imul, idiv, floor, unit, arb, compositum", L + "src")],
     "property-based testing against rational arithmetic and rational enclosures of algebraic numbers",
     "Number fields are the one of the golden ratio or generated by roots of degree up to 5 of random integers, elements are random; e-antic's polynomial representation is trusted to be what it says.")

MOD = [L + "exact-real/module.hpp", L + "src/module.cc"]
EL = [L + "exact-real/element.hpp", L + "src/element.cc"]
prop("M01", "A module is determined by its ring and its set of generators",
     "Creating a module from generators in any order yields the identical module with the generators in degree lexicographic order; other generators or another ring yield another module. Repeated generators or more than one rational generator are rejected with an exception. The span of two modules is generated by the union of the generators over the common ring, being a submodule is inclusion of generators, generators, zero, and one (exactly if there is one) are the elements they claim to be, and printing lists the generators.",
     ["inputs", "histories"], "All sets of random numbers, products and rationals as generators, all orders, all pairs of modules, all rings.",
     "Orders and overlaps of sets of generators are combinatorial; tests use one or two modules with generators in one order.",
     MOD + [L + "src/external/unique-factory"], [("unique factory, span, submodule, one", L + "src/module.cc")],
     "property-based testing against a model of sets of monomials",
     "Generators are products of up to four random numbers that are independent by construction, and one rational.")

prop("E01", "Elements are added, multiplied and scaled exactly",
     "After any history of sums, differences, products, negations, multiplication and division by scalars of every supported type (machine integers, integers, rationals, field elements, generators), assignments, promotions and simplifications, also with aliased operands and operands in different modules, the elements are exactly the polynomials in their generators that the history prescribes, and operands other than the target did not change. Sums live in the span of the modules, products in the module of the products. Scaling that leaves the ring is rejected with an exception, and so are operations on elements over number fields that are not contained in each other (or their result is correct); they do not change operands.",
     ["inputs", "histories"], "All histories over elements with integer, rational and algebraic coefficients in all modules.",
     "Aliasing, overlapping modules and products that collide happen in combinations of operations; tests look at single operations in fixed modules.",
     EL + RINGS, [("operators on coefficients after promotion to a common module", L + "src/element.cc")],
     "stateful property-based testing against polynomial arithmetic",
     "Histories of up to 12 operations on up to 4 elements; polynomials with exact coefficients are the oracle.")

prop("E02", "Moving an element to another module preserves it",
     "Promoting an element to any module that contains the generators it needs, simplifying it, and changing the ring of coefficients from integers to rationals to number fields gives the same number with the same coefficients at the same generators. Promoting to a module that lacks a generator that is needed is rejected with an exception (when assertions are enabled). Simplifying leaves exactly the generators with non-zero coefficient and is idempotent, and promoting back restores the original element.",
     ["inputs"], "All elements and all modules between the generators that are needed and arbitrary supersets, all rings.",
     "Merging sorted lists of generators goes wrong for particular interleavings; the tests promote between one or two pairs of modules.",
     EL + MOD, [("promote, simplify", L + "src/element.cc")],
     "property-based testing against a model of polynomials",
     "Random pairs of modules; polynomials are the oracle.")

prop("E03", "Division of elements is exact, and floor division is the floor of the quotient",
     "Exact division returns the quotient whenever there is one with coefficients in the ring, and nothing otherwise; the quotient times the divisor is the dividend. Floor division returns the greatest integer whose product with the divisor does not exceed the dividend (for a positive divisor, mutatis mutandis for a negative one), no matter how close the quotient is to an integer. Division by zero is rejected with an exception, and operands do not change.",
     ["inputs"], "All pairs of elements in all modules, multiples with and without remainder, quotients arbitrarily close to integers, negative and algebraic coefficients.",
     "Failing divisions fail late, and quotients close to integers need hundreds of bits; tests divide a few small elements.",
     EL, [("truediv (multivariate polynomial division), floordiv", L + "src/element.cc")],
     "property-based testing against polynomial division and exact signs",
     "Random polynomials in up to 3 random numbers; signs decided by enclosures with 1789 bits. Rational generators other than 1 are not divided (documented limit of products).")

prop("E04", "Elements are ordered and approximated like the real numbers they are",
     "The six comparisons of elements with elements of any module, machine integers of all types, integers, rationals and their own generators agree with the order of the exact values, however many leading digits agree and whatever the global locale is. Floor and ceiling are exact, the conversion to double returns the closest one with ties to even (also subnormal and overflowing), and the ball at any accuracy contains the element and is at least that accurate, also when leading digits cancel.",
     ["inputs"], "All elements, scalars and pairs of elements that agree to hundreds of digits, all accuracies.",
     "Wrong answers need agreement in many digits, ties or limits of integer types; tests use well separated values.",
     EL, [("comparison with increasing precision, arb, operator double, floor, ceil", L + "src/element.cc")],
     "property-based testing against rational enclosures with 1789 bits",
     "Pairs are scaled to agree in up to 700 bits; exact integer rounding for doubles.")

prop("E05", "Equality of elements is equality of numbers",
     "Elements are equal exactly if their coefficients agree at all generators, in whatever modules they live; equal elements have equal hashes. An element is equal to, and converts to, a rational or an integer exactly if it is one, also when the rational generator is not one, and whatever the global locale is. Coefficients are returned at the generators they were given for, indexes out of range and wrong numbers of coefficients are rejected, rational coefficients list the coefficients of algebraic coefficients, and an element is a unit exactly if its inverse is in its module.",
     ["inputs"], "All elements in all modules and rings, all scalar types.",
     "Quantifies over pairs of modules and over rational generators; the tests have 1 as the only rational generator.",
     EL, [("operator==, hash, conversions to optional, rationalCoefficients, unit", L + "src/element.cc")],
     "property-based testing against a model of polynomials with rational generators",
     "Random modules with up to 5 generators.")

prop("E06", "Elements print as the sum of their terms",
     "An element prints as the signed sum of all its non-zero terms, each one once as coefficient times generator (either being left out if it is one), with positive terms first; zero prints as 0. A generator prints as the product of its factors with their exponents, and each random factor shows the first digits of its value. The output does not depend on the module the element is represented in, and, for generators that are not products, not on the order in which the generators were created.",
     ["inputs"], "All elements in all modules and rings.",
     "Combinations of signs, unit coefficients, rational generators and algebraic coefficients; tests print a few.",
     EL, [("operator<<", L + "src/element.cc")],
     "property-based testing against the list of terms",
     "Terms may come in any order within the positive and negative ones, as long as it is always the same one.")

CE = L + "exact-real/cereal.hpp"
prop("C01", "Numbers survive serialization",
     "Arf, Arb and real numbers that are written to a JSON, portable binary or binary archive are read back as the same number: floating point numbers and balls bit for bit (including infinities, NaN, and exponents beyond 64 bits), real numbers as the same unique number that the process knows or as the number with the same digits if it has been dropped or is read by another process; numbers that appear several times are shared; the global locale at the time of writing and reading does not matter; malformed numbers are rejected with an exception.",
     ["inputs", "histories"], "All numbers, sequences with repetitions, archives written before and after numbers are dropped and in another process that created numbers in another order.",
     "A few numbers are round-tripped in the tests, in the process that still holds them.",
     [CE, L + "exact-real/cereal.interface.hpp", L + "src/real_number.cc", L + "src/random_real_number.cc", L + "src/constrained_random_real_number.cc", L + "src/rational_real_number.cc", L + "src/real_number_product.cc"],
     [("save/load", CE), ("RealNumber::save, RealNumber::load", L + "src/real_number.cc")],
     "property-based testing of round-trips, also between processes",
     "Archives between processes are produced by forked processes; only characters that belong to no number are used as malformed input.")
prop("C02", "Modules and elements survive serialization",
     "Modules and elements that are written to an archive are read back as the same module and an equal element with the same coefficients over the same ring, also when several of them share modules, when modules come before or after elements, and when another process that has created the generators in another order reads the archive, and whatever the global locale is when writing and reading.",
     ["inputs", "histories"], "All modules and elements over all rings, combinations of several of these, archives written in another process.",
     "Tests round-trip single elements in the process that created them.",
     [CE, L + "src/module.cc", L + "src/element.cc"], [("save/load", CE), ("Module::make", L + "src/module.cc")],
     "property-based testing of round-trips, also between processes",
     "Archives between processes are produced by forked processes that create the generators in another order.")
prop("P01", "Functions for bindings equal the direct operations",
     "The functions exported for dynamic languages (add, sub, mul, truediv, neg, eval on expressions and elements, optional conversions to integers and rationals, serialize and deserialize, printing) have the same results as the operations they stand for.",
     ["inputs"], "All elements, floating point numbers, balls and expressions of these, precisions and rounding modes.",
     "The C++ tests do not use these functions.",
     [L + "exact-real/cppyy.hpp"], [("namespace exactreal::cppyy", L + "exact-real/cppyy.hpp")],
     "property-based testing against the reference models",
     "The Python code that calls these functions cannot run here.")
