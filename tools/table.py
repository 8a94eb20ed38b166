NOT_APPLICABLE = []
A, R, Q = "src/algos.rs", "src/rational.rs", "src/atom.rs"
T_VALUE = """The unit tests compare a handful of hand-written inputs with hand-written outputs; the claim is about every
expression, in particular raw (unsimplified) trees, repeated bases, nested powers and non-neighbouring like terms that no
test contains."""

prop("C01", "Rational numbers compute exactly and stay in lowest terms",
     """Sums, differences, products, quotients, inverses, absolute values, whole and fractional parts of rational numbers are exact, and
     every number is in lowest terms with a positive denominator.
     Comparison, equality and hashing, the predicates (zero, one, sign, integer, even, odd), conversions and the printed form agree with the exact value.""",
     "all numerators and denominators below 2^60 in absolute value, in value, reference and assigning forms of the operators",
     """The tests add and multiply a few small fractions; normalisation and ordering depend on signs, common factors and
     sizes of four integers.""", [R],
     [("arithmetic", f"{R}: impl_op, Add/Sub/Mul/Div for Rational"), ("normal form", f"{R}: Rational::new, reduced"),
      ("order", f"{R}: Ord for Rational")],
     "property-based testing: differential against big rationals", GEN)

prop("C02", "Rational powers and binomial coefficients are exact or left alone",
     """Raising a rational number to a rational exponent returns a number and a remaining exponent that together equal the power exactly:
     an integer exponent is computed completely, of an exponent above one the whole part, and below one nothing.
     A power that does not fit into the number type is left unevaluated instead of being wrong or panicking; binomial coefficients are exact.""",
     "all rational bases and exponents of either sign, including exponents far beyond what fits",
     """Tests raise a few small integers to small exponents; sign of base and exponent, fractional parts and overflow interact.""",
     [R], [("powers", f"{R}: Rational::pow, pow_basic, pow_int"), ("binomials", f"{R}: binomial_coeff")],
     "property-based testing: differential against big integers", GEN)

prop("C03", "Every way to build an expression keeps its value",
     """Adding, subtracting, multiplying, dividing and raising expressions to powers, with any mix of owned and borrowed operands, with operators,
     assigning operators, named constructors and raw constructors, gives an expression with the value of that operation (roots and logarithms of positive operands; a power of an operand that is
     not simplified also where its variables are negative), and all owned
     and borrowed forms give the same expression.
     Numbers, constants, variables and functions are represented exactly as given, and operators on numbers alone (integer exponents)
     give the exact number where it fits.""",
     "all operand expressions, including equal, proportional and similar operands, and all forms of every constructor",
     """Smart constructors merge operands by pattern; the tests use a few operand shapes and mostly the expr! macro's forms.""",
     [Q, A], [("constructors", f"{Q}: Expr::add, sub, mul, div, pow, *_raw, SymbolicExpr for Sum/Prod/Pow"),
              ("merging on construction", f"{A}: Sum::add_rhs, Prod::mul_rhs, flat_merge")],
     "property-based testing: value-preservation oracle and agreement of all forms", VAL)

prop("C04", "reduce never changes the value of an expression and always terminates",
     """Reducing an expression (basic automatic simplification) returns, without panicking, looping or overflowing the stack,
     an expression with the same value at every point where the original has a value (roots and logarithms of positive operands).
     In particular it never turns an expression that has a value into undef.""",
     """every expression tree built from numbers, variables, constants, sums, products, powers and functions, through any mix
     of raw and simplifying constructors""",
     T_VALUE, [A, Q],
     [("recursive argument reduction", f"{Q}: SymbolicExpr for Expr/Sum/Prod/Pow/Func ::reduce"),
      ("merging of like terms and factors", f"{A}: Sum/Prod ::reduce_rec, merge_args, flat_merge, collect_like_*")],
     "property-based testing: value-preservation oracle (prime field + interval arithmetic)", VAL)

prop("C05", "reduce produces a normal form and reducing again changes nothing",
     """A reduced expression contains no nested or one-argument sums and products, at most one number in each sum and product, no zero
     summand, unit factor, power with exponent 0 or 1, sine or cosine of zero or of a product with a negative number, or undef as an
     operand of a sum, product or power.
     Whatever the exponents, it also has no two like terms, no two powers of the same base, no power of a power and no integer power of a product.
     Reducing it once more gives an equal expression.""",
     "every expression tree the constructors can build, with integer, fractional and symbolic exponents",
     """Tests check that particular sums and products come out as expected; whether like terms are found depends on the
     order, nesting and cancellation pattern of all arguments.""", [A, Q],
     [("collection of like terms and factors", f"{A}: Sum::collect_like_terms, Prod::collect_like_factors"),
      ("power rules", f"{Q}: Pow::reduce")],
     "property-based testing: structural normal-form invariant and idempotence", GEN)

prop("C06", "reduce does not depend on the order or grouping of operands",
     """Writing the operands of the sums and products of an expression in another order, or grouping them differently with the same
     constructors, reduces to an equal expression, provided the expression has a value somewhere.
     Where a rational multiple of a (power of a) sum, a non-integer power of a product or a non-integer power of a number is involved, whose
     parts may stay apart or be merged, the results have equal values.""",
     "every expression (integer, fractional and symbolic exponents) and every permutation and regrouping of the operands of its sums and products",
     """Two orders of one sum in a test say nothing about the other permutations; the merging algorithm only compares
     neighbouring operands, so its result depends on all of them.""", [A, Q],
     [("ordering of operands", f"{A}: Sum::cmp_args, Prod::cmp_args; {Q}: Ord for Expr"),
      ("collection of like terms and factors", f"{A}: collect_like_terms, collect_like_factors")],
     "property-based testing: metamorphic relation (permute / regroup operands)", GEN)

prop("C07", "expanding and reducing decides equality of polynomials",
     """Expanding and reducing a polynomial expression gives exactly the sum of monomials of that polynomial: one term per
     non-zero coefficient and the number 0 for the zero polynomial.
     Two polynomial expressions expand and reduce to equal expressions, and their difference to 0, exactly when they are the same polynomial.""",
     "every polynomial expression with rational coefficients in several variables, however it is written, and every pair of them",
     """Tests expand a few products; that no cancellation, coefficient or monomial is ever missed is a statement about all
     polynomials and all ways to write them.""", [A, Q],
     [("expansion", f"{A}: Expr::expand, Prod::distribute, Pow::expand_pow_rec"), ("reduction", f"{Q}: reduce")],
     "property-based testing: model-based (big-rational polynomial arithmetic)", GEN)

prop("C08", "expand preserves the value and leaves no product of sums behind",
     """Expanding an expression terminates and keeps its value wherever it has one (roots and logarithms of positive operands).
     Expanding a polynomial expression in variables, constants and functions leaves, after reducing, no product with a sum as a
     factor and no positive integer power of a sum or product anywhere.""",
     "every expression, including fractional and negative powers of sums and products nested inside each other",
     T_VALUE, [A],
     [("distribution", f"{A}: Prod::distribute, Prod::expand_mul"), ("binomial expansion", f"{A}: Pow::expand_pow_rec"),
      ("binomial coefficients", f"{R}: binomial_coeff")],
     "property-based testing: value-preservation oracle and shape invariant", VAL)

prop("C09", "expand_main_op and distribute multiply out exactly the outermost operation",
     """Expanding the outermost operation of an expression, or distributing a product over its first sum, terminates and
     keeps the value wherever the expression has one (roots and logarithms of positive operands).
     Of a reduced product of sums or power of a two-term sum with integer exponents it gives, up to reduction, the sum of the products of the terms.
     Expressions whose outermost operation is a function, variable, number or sum of other than one term are returned unchanged.""",
     "every expression, in particular raw products with several sums and powers of sums with integer or fractional exponents",
     T_VALUE, [A],
     [("outermost expansion", f"{A}: Expr::expand_main_op, Pow::expand_pow_rec(false)"),
      ("distribution over the first sum", f"{A}: Expr::distribute, Prod::distribute_first")],
     "property-based testing: value-preservation oracle", VAL)

prop("C10", "expand_trig preserves the value and splits sines and cosines of sums",
     """Trigonometric expansion terminates and keeps the value of the expression wherever it has one (roots and logarithms of positive operands).
     The result contains no sine or cosine of a sum and none of an integer multiple that leads a product.""",
     "every expression, in particular sines and cosines of sums of (negative) integer multiples, nested in each other",
     """The tests expand three sines and cosines with small positive multiples; signs and binomial weights depend on the
     multiple and the nesting.""", [A],
     [("angle sums and multiples", f"{A}: expand_trig_arg, _expand_sin_cos_n_times_phi")],
     "property-based testing: interval-arithmetic value oracle and shape invariant", VAL)

prop("C11", "contract_trig preserves the value and turns products into sums",
     """Trigonometric contraction (products and powers of sines and cosines into sums) terminates without panicking and keeps the
     value of the expression wherever it has one (roots and logarithms of positive operands). Contracting an expanded sum of products of first
     powers and squares of sines and cosines, or of one such power per term, and expanding the result leaves no product or power of them; for sines and
     cosines of multiples of one variable, the difference of two equal functions becomes 0.""",
     "every expression, in particular products of several positive and negative powers of sines and cosines with other factors",
     """The tests contract a few products; power-reduction weights depend on the exponent's size and parity and on how products
     with several factors are nested.""", [A],
     [("product-to-sum", f"{A}: contract_trig_prod"), ("power reduction", f"{A}: contract_trig_pow"),
      ("splitting off sines and cosines", f"{A}: separate_sin_cos, is_pos_sin_cos_int_pow")],
     "property-based testing: interval-arithmetic value oracle", VAL)

prop("C12", "Trig substitution and trig simplification preserve the value",
     """Rewriting tangent, cotangent, secant and cosecant through sine and cosine removes every such function and keeps the value
     wherever the original has one (roots and logarithms of positive operands).
     Simplifying a trigonometric expression terminates, keeps its value wherever it has one, and gives zero for the Pythagorean, quotient, reciprocal, double-angle and angle-sum identities.""",
     "every expression, with trigonometric functions nested in arguments, exponents and denominators",
     """One identity is simplified by the tests; a wrong sign or quotient shows only for particular functions at particular
     places of the tree.""", [A],
     [("substitution", f"{A}: Expr::substitute_trig"), ("simplification", f"{A}: Expr::simplify_trig")],
     "property-based testing: interval-arithmetic value oracle", VAL)

prop("C13", "Expanding exponentials and logarithms preserves the value",
     """Expanding exponentials or natural logarithms terminates and keeps the value of the expression wherever it has one (roots and logarithms of positive operands), when the
     arguments of logarithms are built from positive parts.
     Afterwards no exponential of a sum or of a product led by an integer, respectively no natural logarithm of a product or power, is left.""",
     "every expression whose logarithms are taken of positive products, powers and sums",
     """The tests expand two exponentials and no logarithm with a quotient or negative power; the rules recurse through the
     whole tree.""", [A],
     [("exponentials", f"{A}: Expr::expand_exponential, expand_exponential_arg"),
      ("logarithms", f"{A}: Expr::expand_ln, expand_ln_arg")],
     "property-based testing: value-preservation oracle and shape invariant", VAL)

prop("C14", "Rationalizing and splitting into numerator and denominator are consistent",
     """Rationalizing an expression terminates and keeps its value wherever it has one (roots and logarithms of positive operands), and
     for a reduced expression leaves no sum with a fraction or a reciprocal (power -1) as a factor of a term, outside functions and exponents.
     Numerator divided by denominator has the value of the expression, and so does the quotient reported for expressions seen as a division; of a reduced expression the parts hold no fraction and no reciprocal, or no negative power.""",
     "every expression, in particular fractions nested in sums, products and other fractions",
     T_VALUE, [A, Q],
     [("common denominators", f"{A}: Expr::rationalize, rationalize_add"),
      ("splitting", f"{Q}: Expr::numerator, denominator, try_as_div")],
     "property-based testing: value-preservation oracle", VAL)

prop("C15", "Factoring, common factors and cancelling preserve the value",
     """Factoring out common factors and cancelling a quotient terminate and keep the value wherever the expression has one (roots and logarithms of positive operands),
     and a power of a variable shared by all terms of a reduced sum, which has the variable nowhere else, is taken out (and divided out of a quotient).
     Common factors of two expressions multiplied with the two reported cofactors give the two expressions back.
     Separating factors by a variable gives a part that does not contain it and whose product with the other part is the expression,
     and so does splitting off sines and cosines.""",
     "every expression and every pair of expressions, with and without shared factors",
     """Tests factor a few sums; which factors are found and divided out depends on coefficients, exponents and nesting of both
     operands.""", [A],
     [("common factors", f"{A}: Expr::factorize_common_terms, common_factors"),
      ("factoring", f"{A}: Expr::factor_out, cancel, separate_factors")],
     "property-based testing: value-preservation oracle and reconstruction", VAL)

prop("C20", "Sorting operands is a canonical reordering",
     """Sorting the operands of an expression only reorders the operands of its sums and products, gives the same structure
     for every order of the same operands, and changes nothing when applied again.
     The sorted expression compares equal to the original.""",
     "every expression, including nested sums and products with equal, similar and undefined operands, and every permutation",
     """A sort under an order that is not total or not transitive agrees with the tests' inputs and fails for other
     permutations.""", [A, Q],
     [("sorting", f"{A}: Expr::sort_args, Sum::cmp_args, Prod::cmp_args"), ("order", f"{Q}: Ord for Expr, Real, Func")],
     "property-based testing: permutation invariance, idempotence", GEN)

prop("C16", "derivative is the derivative",
     """The derivative of an expression by a variable has, wherever the expression is defined and differentiable (roots and logarithms of positive operands), the value of the
     mathematical derivative; computing it terminates without panicking.
     A function, sum or power may stand for the variable and counts as a symbol wherever it occurs.""",
     "every expression of sums, products, powers (with constant or symbolic exponents), exponentials, logarithms and elementary functions, and every variable",
     """The tests differentiate nine expressions and compare with one written form; the rules recurse through products with
     several factors, general powers and all functions.""", [Q, A],
     [("derivative rules", f"{Q}: Expr::derivative, Func::derivative, SymbolicExpr::derivative")],
     "property-based testing: differential against a textbook derivative, compared by value", VAL)

prop("C17", "Substitution replaces exactly the asked sub-expressions",
     """Substituting one expression for another replaces every complete sub-expression equal to it, including the whole, and nothing
     else, without substituting again inside what was inserted.
     Concurrent substitution applies several replacements to the original at once, sequential substitution applies them one after another.
     The expression substituted into is not changed.""",
     "every expression and every list of replacements, including replacements that contain what other replacements look for",
     """The tests substitute into two expressions; order, nesting and overlap of the replacements matter.""", [A, Q],
     [("substitution", f"{A}: Expr::substitude, seq_substitude, concurr_substitude")],
     "property-based testing: reference model of substitution on an independent tree", GEN)

prop("C18", "Sub-expressions, variables and free_of see the whole expression",
     """The complete sub-expressions of an expression are exactly the nodes of its tree, each visited once; the visitors that may
     modify reach every node or variable and change nothing else.
     An expression is free of another exactly when none of its sub-expressions equals it.
     The generalised variables are exactly the non-numeric bases of its terms and factors, without duplicates.""",
     "every expression and every query expression that does or does not occur in it",
     """The tests list the variables of a few polynomials; occurrences deep in exponents, functions and reordered operands are not covered.""",
     [A, Q], [("traversal", f"{A}: iter_compl_sub_exprs, for_each_compl_sub_expr, try_for_each_compl_sub_expr"),
              ("occurrence", f"{A}: Expr::free_of, free_of_set"), ("variables", f"{A}: Expr::variables")],
     "property-based testing: reference model on an independent tree", GEN)

prop("C19", "Equality, order and hash of expressions are consistent",
     """Equality of expressions is an equivalence that ignores the order of operands of sums and products; equal expressions have equal hashes.
     The order is total, antisymmetric and transitive, and says equal exactly for equal expressions.
     Hash sets, ordered sets and sorting therefore treat expressions consistently.""",
     "all triples of expressions, including permuted, similar, equal-looking and undefined ones",
     """Tests compare a handful of pairs; a violation needs particular triples or permutations.""", [Q, A],
     [("equality and hash", f"{Q}: PartialEq/Hash for Sum, Prod, Expr"), ("order", f"{Q}: Ord for Expr, Atom, Real; {A}: cmp_args")],
     "property-based testing: algebraic laws on generated triples", GEN)

prop("C26", "simplify returns distinct equivalent expressions, cheapest first",
     """Simplifying an expression terminates and returns pairwise different expressions with the same value wherever the original has one (roots and logarithms of positive operands),
     ordered by cost (number of nodes).
     They include the reduced result of every single rewriting step, and simplifying again gives the same list; irreducible expressions give no alternatives.""",
     "every small expression over which the rewriting steps are composed",
     """One expression is simplified by the tests; the search composes ten rewriting steps on every intermediate result.""",
     [A, "src/transforms.rs"], [("search", f"{A}: Expr::simplify"), ("cost", f"{A}: ExprCost")],
     "property-based testing: value-preservation oracle and list invariants", VAL)

prop("C27", "Operations never change operands, shared copies or constants",
     """Whatever operations were carried out before, on operands that share sub-expressions with each other and with the shared
     constants, no operation changes any other expression or constant.
     The result of an operation depends only on its operands, not on sharing or on what was computed before.""",
     "all histories of building, rewriting, substituting and in-place modifying operations over a pool of shared expressions",
     """Unit tests use fresh expressions once; copy-on-write mistakes need an operand that is shared and used again later.""",
     [Q, A, "src/utils.rs"], [("shared nodes", f"{Q}: Expr (reference counted), atom_mut, make_mut"),
                          ("in-place algorithms", f"{A}: map_args, args_mut, for_each_compl_sub_expr")],
     "stateful property-based testing: histories over shared operands against fresh copies", GEN, over=("histories",))

prop("C28", "undef and division by zero propagate",
     """A sum, product, power or quotient with an undefined operand, a division by zero and zero to the power zero or to a negative
     number are undefined: with simplifying operators at once, in an explicitly built expression after reducing.
     A factor zero or a zero summand does not hide it; the arguments of functions are not looked into.""",
     "every expression containing an undefined operand or a division by (an expression reducing to) zero at any place outside function arguments",
     """The tests check a few two-operand cases; whether undef survives depends on operand order, zeros and merging.""",
     [Q, A], [("operators", f"{Q}: Expr::add, mul, pow, div"), ("reduction", f"{A}: reduce_rec, merge_args")],
     "property-based testing: propagation oracle on generated undefined expressions", GEN)

prop("C29", "Decompositions of an expression put together give it back",
     """Base and exponent, coefficient and remaining term, first operand and rest, function arguments and logarithm bases, and
     flattening of one-operand sums and products return exactly the parts the expression is built from.""",
     "every expression, raw or simplified, with numbers at any place in products",
     """Tests do not call most of these; all merging of like terms relies on them for every operand.""", [Q, A],
     [("parts of an expression", f"{Q}: base, exponent, rational_coeff, non_rational_term, flatten, first, rest, try_unwrap_*")],
     "property-based testing: reference model on an independent tree", GEN)

prop("C30", "Predicates, accessors and argument access agree with the expression",
     """Every predicate on expressions (undefined, number, variable, sum, product, power, function, zero, one, sign, parity, constant,
     trigonometric, exponential) holds exactly for the expressions it names, and accessors return their value, name or approximation.
     Arguments can be counted, listed, iterated, visited and replaced consistently.""",
     "every expression, in particular numbers of every sign, size and parity, and functions of every kind",
     """No test enumerates the predicates; the algorithms branch on them at every node.""", [Q, A, R],
     [("predicates", f"{Q}: is_* of Expr, Func, SymbolicExpr"), ("arguments", f"{Q}: args, iter_args, map_args, n_args")],
     "property-based testing: reference model on an independent tree", GEN)

prop("C21", "Degrees and coefficients of polynomials are those of the expression",
     """Seen as a monomial or polynomial in any set of generalized variables, an expression is recognised exactly when it is one, and its total degree,
     degree in each variable, coefficients by power product, coefficients by degree and leading coefficient are those of the expression.
     The coefficients times their power products add up to it.""",
     "every expression, monomial, polynomial or not, in every set of variables (symbols, functions, powers, sums)",
     """Tests look at a few polynomials in one or two symbols; repeated variables, powers of monomials, generalized variables and
     like terms interact.""", ["src/polynomial.rs"],
     [("monomials", "src/polynomial.rs: MonomialView::check, coeff, degree, degree_of"),
      ("polynomials", "src/polynomial.rs: PolynomialView::check, degree, coeffs, coeffs_of, leading_coeff_of")],
     "property-based testing: reference model on an independent tree", GEN)

prop("C22", "Collecting terms of a polynomial merges like terms and keeps its value",
     """Collecting the terms of a polynomial in a set of variables gives an expression of the same value, with one term per power product, in descending
     order of total degree; an expression that is not a polynomial is not collected.
     Power products compare, hash and multiply like the maps from variable to degree they stand for.""",
     "every polynomial with arbitrary coefficients in every set of variables, like terms at any place",
     """Tests collect three sums; whether terms are like depends on order and grouping of factors and on coefficients that are themselves
     expressions.""", ["src/polynomial.rs"],
     [("collection", "src/polynomial.rs: PolynomialView::collect_terms, GPE"), ("power products", "src/polynomial.rs: VarPow")],
     "property-based testing: reference model and value-preservation oracle", GEN)

prop("C23", "The printed form of an expression reads back as the same value",
     """Displaying an expression gives a text that, read with the usual precedence (^ before products and quotients from the left, before sums, sign before
     the product after it), denotes exactly the value of the expression.
     It contains every variable and undefined part of it, and nothing else.""",
     "every expression, raw or simplified, including negative, fractional and nested powers, quotients and neighbouring factors",
     """Tests print 28 expressions; whether parentheses, signs, implied products and quotients are right depends on every combination of
     neighbouring operands.""", ["src/sym_fmt.rs", Q],
     [("formatting", "src/sym_fmt.rs: FmtAtom, SymbolicFormatter, precedence")],
     "property-based testing: round trip through an independent parser", VAL)

prop("C24", "Expressions survive serialization",
     """Serializing an expression and reading it back gives the same expression, argument by argument, equal to and hashing like the original,
     and serializes to the same text again.""",
     "every expression, with every function, constant, variable name and numbers up to 2^100",
     """No test serializes an expression.""", [Q, R],
     [("serialization", f"{Q}, {R}: Serialize / Deserialize of Expr, Atom, Func, Rational")],
     "property-based testing: round trip through JSON", GEN)

prop("C25", "expr! builds the expression its text denotes",
     """The expr! macro builds the expression its text denotes: usual precedence, every operator including ^ from the left, a sign covering the power after it,
     parentheses, numbers, pi, undef, symbols by their name and constructors of expressions as functions.""",
     "every text of the macro's grammar without floating point literals, oo and placeholders",
     """Tests contain a fixed set of macro calls, mostly compared with other macro calls, which read the same wrong way.""",
     ["macros/src/lib.rs"], [("parser", "macros/src/lib.rs: parse_bin_expr, parse_unary_expr, parse_operand"),
                           ("code generation", "macros/src/lib.rs: gen_expr_stream")],
     "property-based testing: generated programs, differential against an independent parser", GEN, over=("inputs",))
