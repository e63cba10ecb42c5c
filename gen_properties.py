#!/usr/bin/env python3
"""Generates properties.jsonl (kept as data here so that it stays readable)."""
import json
P=[]
def add(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
U='uncertainties/'
add('P01','First-order propagation is exactly the linear error-propagation formula',
 'Applying a function of one, two or any number of arguments to first-order variables, given its value and partial derivatives, yields a variable whose mean is that value and whose covariance with every variable is the sum over arguments of the derivative times the argument\'s covariance with it. This holds whatever mixture of exact numbers, fresh variables, rescaled variables and multi-dependency results the arguments are, including the same variable passed more than once.',
 ['inputs','programs'],'all means, standard deviations and derivatives (including zero and negative ones), all kinds of operand and overlaps between the variables they depend on',
 'Tests compute a few expressions with fixed numbers; the representation cases (plain number / independent / dependent with partially overlapping sets of variables) times all coefficient values are never enumerated.',
 [U+'ureal.hpp'],[('one, two and n-argument propagation',U+'ureal.hpp: unary, binary, nary'),('coefficient map merge',U+'ureal.hpp: binary')])
add('P02','First-order arithmetic operators propagate the exact value and derivatives',
 'For +, -, *, / and both signs, between uncertain variables or an uncertain variable and an ordinary number on either side, the mean of the result is the operation on the means and the uncertainty is propagated with the exact partial derivatives of the operation at the means. For any expression built from them, the covariance of the result with every input is the true derivative of the whole expression times that input\'s variance.',
 ['inputs','programs'],'all means with nonzero divisors, all standard deviations, all operand kinds, chained expressions',
 'Tests check a few operations at a few points; sign or factor errors that vanish at the sampled values, or in combinations of operand kinds, pass.',
 [U+'ureal.hpp'],[('operators',U+'ureal.hpp: operator+,-,*,/')])
add('P03','First-order in-place operators equal their out-of-place forms, even aliased',
 'x op= y leaves x with the mean and with the covariances with every other variable and with itself that x op y has, for all four operations, whatever kinds of variable x and y are, also when y is x itself or shares dependencies with x. The right operand, unless it is x, is not changed.',
 ['inputs','programs','histories'],'all operand kinds, all values including derivative 0 and 1, aliasing, with or without earlier queries of the standard deviation',
 'The in-place path has its own map update, aliasing and cache logic; tests exercise it with few values and not in the aliased, cached or derivative-zero cases.',
 [U+'ureal.hpp'],[('in-place propagation',U+'ureal.hpp: binary_assign, operator+=,-=,*=,/=')])
add('P04','Covariance is a symmetric bilinear form; variance and correlation agree with it',
 'For first-order variables cov(x,y) = cov(y,x), cov is linear in each argument under linear operations, var(x) = cov(x,x) = s(x)^2 >= 0, and cov(x,y)^2 <= var(x) var(y). corr(x,y) equals cov(x,y)/(s(x) s(y)), variables sharing no independent variable have covariance zero, and adding exact numbers never changes a covariance.',
 ['inputs','programs'],'all pairs of operand kinds, all overlaps of their dependencies (up to the stated number of variables), all coefficients',
 'The covariance has four code paths and a two-iterator merge; sampled pairs do not cover every interleaving of dependency sets.',
 [U+'ureal.hpp'],[('covariance merge',U+'ureal.hpp: cov'),('variance and correlation',U+'ureal.hpp: var, corr, s')])
add('P05','Querying a first-order variable never changes it and the answers never go stale',
 'After any sequence of constructions, operations, in-place operations and queries, the reported standard deviation is the square root of the propagated variance of the current value. Interleaving queries (of standard deviation or variance, on const or mutable objects) anywhere in the sequence changes no later result.',
 ['histories','inputs'],'all bounded sequences of operations and queries on variables of every kind, with all values',
 'The standard deviation is cached lazily in a field that has another meaning for independent variables; a stale cache shows only for a particular order of query and update.',
 [U+'ureal.hpp'],[('lazy standard deviation cache',U+'ureal.hpp: s, var, binary_assign')])
add('P06','Each uncertain variable is new and independent, and says so',
 'Constructing a variable with a mean and a standard deviation creates a variable with an identity different from all those created before, first- or second-order, and uncorrelated with them; plain numbers, copies and results of computations create no identity. A variable reports itself independent exactly when it depends on at most one independent variable, and then reports that variable\'s identity (0 if it depends on none), otherwise the invalid identity; copies and one-variable computations keep the identity and full correlation.',
 ['histories','inputs'],'all sequences of constructions and operations of the bounded shapes, all values, both classes mixed',
 'Tests create a handful of variables of one class; they do not relate identities across classes and after every kind of computation.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'impl.hpp'],[('identity allocation',U+'ureal.hpp and '+U+'ureal2.hpp constructors'),('independence query',U+'ureal.hpp, '+U+'ureal2.hpp: isindep, indepid')])
add('P07','First-order gradient is the derivative with respect to the given variable',
 'The gradient of y with respect to a nontrivial independent variable x is the number g such that y varies as g times x: cov(y,x) = g var(x), for y of any kind including x itself, a copy or a rescaled version of x, and numbers or unrelated variables (gradient 0). Asking for a gradient with respect to a variable that is not independent, or is an exact number, throws an invalid-argument exception.',
 ['inputs','programs'],'all kinds of y and of x (fresh, rescaled with either sign, one-entry dependent), all values with nonzero uncertainty of x',
 'Tests only ask for gradients of multi-variable results with respect to fresh variables.',
 [U+'ureal.hpp'],[('gradient',U+'ureal.hpp: grad')])
add('P08','Changing the mean or the numeric type preserves all uncertainty information',
 'Replacing the mean of a first-order variable changes the mean only. Converting a first- or second-order variable to another numerical type, or a second-order variable between the two propagation modes, preserves mean, standard deviation, higher moments, derivatives, identity and every correlation with other converted variables.',
 ['inputs','programs'],'all kinds of variable, all values, both directions between the propagation modes',
 'Tests convert one or two variables and check means only.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'internal/hessgrad.hpp'],[('conversion',U+'ureal.hpp, '+U+'ureal2.hpp, '+U+'internal/hessgrad.hpp conversion operators'),('mean replacement',U+'ureal.hpp: change_nom')])
add('P09','First-order math functions have the right value and derivative on their domain',
 'Every mathematical function offered for first-order variables returns, at every mean inside the open domain where the mathematical function is differentiable, the standard library\'s value as mean and propagates the uncertainty with the true derivative(s) of the function there. This covers absolute value, fmod, remainder, max, min, exponentials, logarithms, powers, roots, hypot, trigonometric, hyperbolic and their inverses, atan2, erf and erfc.',
 ['inputs'],'every mean at which the function is differentiable, including zero and negative means',
 'Tests compare with numerical derivatives at a few positive points, so errors for negative or zero arguments, or of the sign in one quadrant, pass.',
 [U+'math.hpp'],[('function and derivative table',U+'math.hpp: UReal overloads')])
add('P10','Second-order math functions have the right value, first and second derivatives',
 'Every mathematical function offered for second-order variables returns, at every mean inside the open domain where the mathematical function is twice differentiable, the standard library\'s value as first-order mean, and propagates with the true first and second partial derivatives, including the mixed one.',
 ['inputs'],'every mean at which the function is twice differentiable, including zero and negative means',
 'Tests check numerically at a few points; an error in one second derivative away from those points passes.',
 [U+'math.hpp'],[('function and derivative table',U+'math.hpp: UReal2 overloads')])
add('P11','Second-order propagation is the exact second-order chain rule',
 'Applying a function of one or two arguments with given value, first and second derivatives to second-order variables yields a variable whose first-order mean is that value and whose gradient and Hessian with respect to every (pair of) independent variable(s) are those given by the chain rule from the arguments\' gradients and Hessians. It holds for any operands: exact numbers, independent variables, and results with arbitrary full or sparse Hessians and overlapping dependencies, the same operand used twice included; the operators + - * / and signs do so with their exact derivatives.',
 ['inputs','programs'],'all operand kinds up to the stated number of variables, all sparsity patterns of the Hessian, all derivative values including zero',
 'Derivatives equal to zero select a sparse traversal; tests compare a few expressions numerically and do not reach all combinations of sparsity and zero derivatives.',
 [U+'ureal2.hpp',U+'internal/hessgrad.hpp'],[('chain rule',U+'ureal2.hpp: unary, binary, operators'),('sparse Hessian traversal',U+'internal/hessgrad.hpp: ConstHessIt')])
add('P12','Second-order gradient and Hessian queries answer relative to the variables asked',
 'The gradient and Hessian of f with respect to independent variables with nonzero slope are the first and second derivatives of f seen as a function of them, also when they are themselves linear or nonlinear one-variable results; the Hessian is symmetric and absent dependencies give zero. Queries with respect to non-independent variables or exact numbers throw an invalid-argument exception, as does a Hessian with respect to two differently derived versions of one variable.',
 ['inputs','programs'],'all f up to the stated number of variables, all reference variables (fresh, affine, quadratic in one variable with nonzero slope)',
 'Tests take derivatives with respect to fresh variables with unit scale only.',
 [U+'ureal2.hpp'],[('gradient and Hessian accessors',U+'ureal2.hpp: grad, hess')])
add('P13','Central moments of a second-order result are the exact moments of its expansion',
 'For a result whose second-order expansion in independent variables with given moments is known, the reported mean correction, variance, third and fourth central moments equal the exact moments of that quadratic polynomial. This holds for any gradient, any full or sparse Hessian and any input moments.',
 ['inputs','programs'],'all gradients, Hessians, sparsity patterns and standardized moments 3..8, up to the stated number of independent variables',
 'The formulas have about a hundred terms with separate loops per index pattern; tests compare a few distributions with a Monte Carlo tolerance.',
 [U+'internal/moments.hpp',U+'ureal2.hpp'],[('moment formulas',U+'internal/moments.hpp: compute_m1..m4'),('centering',U+'ureal2.hpp: update_mom, m')])
add('P14','Second-order covariance is the exact covariance of the two expansions',
 'The covariance of two second-order results equals the exact covariance of their quadratic expansions in the shared independent variables; it is symmetric, equals the variance when both are the same variable, and is zero for variables sharing no independent variable. The correlation is the covariance divided by the two standard deviations.',
 ['inputs','programs'],'all gradients, Hessians, sparsity patterns, overlaps of dependencies and moments, up to the stated number of independent variables',
 'The sums over the two sparse Hessians are merged by paired iterators; tests check few combinations.',
 [U+'internal/moments.hpp',U+'ureal2.hpp'],[('covariance formula',U+'internal/moments.hpp: compute_c2'),('covariance, variance, correlation',U+'ureal2.hpp: cov, var, corr')])
add('P15','Second-order summary numbers follow the moments and the propagation mode',
 'The standard deviation is the square root of the second central moment, skewness and kurtosis are the third and fourth moments divided by the cube and fourth power of the standard deviation. The mean is the first-order mean plus the mean correction in moment-propagation mode and minus it in estimate mode, and the two modes agree in everything else.',
 ['inputs','programs'],'all second-order variables of the bounded shapes with positive variance',
 'Tests look at a few distributions in one mode.',
 [U+'ureal2.hpp'],[('summary accessors',U+'ureal2.hpp: n, s, skew, kurt, m')])
add('P16','First- and second-order variables agree to first order',
 'The same computation performed on first-order and on second-order variables gives the same first-order mean and the same gradient with respect to every input. When all second derivatives vanish they also give the same variance and covariances.',
 ['inputs','programs'],'all operators and all math functions, all means in the domain, all uncertainties',
 'The two classes have separately written derivative tables and propagation code; tests do not compare them over the domain.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'math.hpp'],[('two derivative tables',U+'math.hpp'),('two operator sets',U+'ureal.hpp, '+U+'ureal2.hpp')])
add('P17','A second-order variable reports the moments it was built with',
 'A variable built from a mean and central moments, or from a mean, a standard deviation and standardized moments, reports that mean, standard deviation, skewness, kurtosis, third and fourth moments, and squares of it reflect the moments up to the eighth; both ways of construction agree, and a zero second moment gives an exact number. Building with a negative standard deviation throws an invalid-argument exception.',
 ['inputs'],'all means, scales and moment sequences (checking disabled), both constructors',
 'Tests construct named distributions only.',
 [U+'ureal2.hpp'],[('constructors',U+'ureal2.hpp: UReal2 constructors')])
add('P18','Moment checking accepts realizable moments and rejects impossible ones',
 'Construction with checking enabled throws an invalid-argument exception exactly when the 5 by 5 Hankel matrix of the moments has a negative eigenvalue whose ratio to the largest eigenvalue exceeds the threshold in size (or has only negative ones), so moments of a real distribution are accepted and moments that no distribution has are rejected. A negative threshold disables the check, and both constructors judge the same moments alike.',
 ['inputs'],'all moment sequences and thresholds, for both constructors',
 'Tests use a fixed list of sequences; an index error in building the matrix can leave those verdicts unchanged.',
 [U+'internal/checkmoments.hpp',U+'ureal2.hpp'],[('Hankel matrix and verdict',U+'internal/checkmoments.hpp: check_moments, hamburger, check_moments_throw')])
add('P19','Named distributions have their mathematical moments and reject bad parameters',
 'The normal, chi-square and uniform constructors give variables whose mean, standard deviation and standardized moments up to the eighth are those of the named distribution for every parameter value. A negative standard deviation or degrees of freedom, or reversed interval ends, throws an invalid-argument exception; zero degrees of freedom gives the exact number zero.',
 ['inputs'],'all means, standard deviations, degrees of freedom and interval ends',
 'Tests compare a few parameter values; the coefficients of the higher moments matter only at small degrees of freedom.',
 [U+'distr.hpp'],[('distributions',U+'distr.hpp: normal, chisquare, uniform')])
add('P20','Conversions between raw, central and standardized moments are exact',
 'Converting raw moments up to the eighth to central moments, and central to standardized moments, gives the exact moments for every sequence of moments; the binomial coefficients used are the true ones for every order up to eight.',
 ['inputs'],'all raw moment sequences (eight real numbers), all binomial indices up to eight',
 'Tests convert the moments of a few distributions.',
 [U+'distr.hpp',U+'impl.hpp'],[('moment conversion',U+'distr.hpp: central_moments, std_moments, binom_coeff'),('binomial table',U+'impl.hpp: compute_binom_coeffs')])
add('P21','Function factories apply the user functions and documented difference formulas',
 'A function object made from a function and its explicit derivatives evaluates each of them at the first-order means of the arguments and propagates with them. When derivatives are omitted they are replaced by exactly the documented finite-difference formulas with the given step, so that they are exact for functions of the degree the formula supports.',
 ['inputs','programs'],'arbitrary functions and derivatives (uninterpreted), all means and nonzero steps, both classes, one and two arguments',
 'Tests use particular functions for which swapped arguments or a wrong stencil point can go unnoticed within the tolerance.',
 [U+'functions.hpp'],[('function factories',U+'functions.hpp: uunary, ubinary, uunary2, ubinary2')])
add('P22','Formatted value and uncertainty are correctly rounded and aligned',
 'The formatted text of a variable with finite mean and nonzero finite uncertainty parses back to the mean and the uncertainty each rounded to the printed digits (error at most half a unit of the last printed place), with the last printed digits of both at the same decimal place. The uncertainty carries the requested number of significant digits, the lower or upper integer being chosen by its leading digits for fractional requests.',
 ['inputs'],'all means and uncertainties in the stated range of magnitudes, all allowed digit requests in the stated range',
 'Tests format a fixed table; carries on rounding and misalignment happen only near powers of ten.',
 [U+'io.hpp',U+'impl.hpp'],[('formatting',U+'io.hpp: format, ndigits, mantissa'),('decimal point and exponent',U+'impl.hpp: insert_dot, format_exp')])
add('P23','Decimal point and exponent text denote the right number',
 'Given a digit string and a decimal exponent, the text with the decimal point inserted denotes the number digits times the matching power of ten, for every digit string and every exponent below its nominal number of digits, never dropping a digit; exponent text denotes the exponent with its sign.',
 ['inputs'],'all digit strings up to the stated length, all exponents in the stated range',
 'Tests see the results of few formats; off-by-one errors for particular string lengths and exponents escape.',
 [U+'impl.hpp'],[('decimal point insertion',U+'impl.hpp: insert_dot'),('exponent text',U+'impl.hpp: format_exp')])
add('P24','Correlated-variable generation reproduces the means and covariance matrix',
 'Given means and a symmetric positive semidefinite covariance matrix, the generated variables have exactly those means and that covariance matrix, in the given order. Mismatched sizes throw an invalid-argument exception and matrices that are not positive semidefinite a runtime-error exception.',
 ['inputs'],'all means and matrices up to the stated size, every pivoting order and singular matrices included, all pairs of sizes in bounds',
 'Tests use random well-conditioned matrices; particular pivot permutations, singular matrices and size pairs are missed.',
 [U+'ureals.hpp'],[('factorization and recombination',U+'ureals.hpp: ureals')])
add('P25','Covariance and correlation matrices have the right entry in each cell',
 'The covariance (correlation) matrix of a sequence, in iterator and in container form, holds the covariance (correlation) of elements i and j in cell i*n+j, so it is symmetric with variances (ones) on the diagonal. Converting a correlation matrix with standard deviations multiplies each cell by both its standard deviations and throws an invalid-argument exception when sizes do not match; the list of means holds the means in order.',
 ['inputs','programs'],'all sequences up to the stated length of first- and second-order variables, all values, all sizes in bounds',
 'Tests use one vector; transposition and index errors need asymmetric input to the conversion.',
 [U+'stat.hpp'],[('matrix functions',U+'stat.hpp: cov_matrix, corr_matrix, corr2cov, nom_vector')])
add('P26','Finiteness and normality tests inspect the value and all propagated terms',
 'The finiteness (normality) test of a first-order variable is true exactly when its mean and standard deviation are both finite (normal). For second-order variables it is true exactly when the first-order mean and every stored derivative with respect to every variable are.',
 ['inputs','programs'],'every combination of finite, infinite and not-a-number mean, uncertainty and derivatives, for variables of each kind',
 'No test calls them on second-order variables, and only trivially on first-order ones.',
 [U+'math.hpp',U+'ureal2.hpp'],[('predicates',U+'math.hpp: isfinite, isnormal'),('fold over stored terms',U+'ureal2.hpp: all')])
add('P27','Second-order in-place binary update equals the out-of-place result',
 'Storing the result of a two-argument function in its first second-order argument gives the same first-order mean, gradient, Hessian and moments as computing it out of place, for all operand kinds, including the second argument being the first.',
 ['inputs','programs'],'all operand kinds up to the stated number of variables, all derivative values, aliasing',
 'No test calls the in-place update for second-order variables.',
 [U+'ureal2.hpp'],[('in-place propagation',U+'ureal2.hpp: binary_assign')])
add('P28','Identities stay unique when variables are constructed concurrently',
 'Whatever the interleaving of threads constructing variables of either class, no two constructions ever receive the same identity, and every identity is positive.',
 ['schedules'],'all interleavings of the memory accesses of the stated number of threads, each constructing the stated number of variables',
 'No test uses threads, and a race in the counter would show only under rare schedules.',
 [U+'impl.hpp',U+'ureal.hpp',U+'ureal2.hpp'],[('global identity counter',U+'impl.hpp: last_id; constructors in '+U+'ureal.hpp, '+U+'ureal2.hpp')])
add('P29','Invalid construction and formatting arguments are rejected, valid ones are not',
 'Constructing a first-order variable with negative standard deviation throws an invalid-argument exception and with any nonnegative one succeeds and reports exactly the given mean and standard deviation. Formatting with fewer than one significant digit throws an invalid-argument exception, and non-finite or zero quantities are printed by name (nan, inf, -inf, 0) on each side of the separator.',
 ['inputs'],'all means and standard deviations; all digit requests; every combination of special values',
 'Tests check a few throwing calls.',
 [U+'ureal.hpp',U+'io.hpp'],[('argument checks',U+'ureal.hpp constructor, '+U+'io.hpp: format, tostring')])
add('P30','Numbers printed without digit request carry six correctly rounded digits',
 'The text of a finite nonzero quantity printed next to a zero or non-finite one (an exact number, or a variable with infinite uncertainty) parses back to the quantity, with its sign, rounded to six significant digits.',
 ['inputs'],'all nonzero values in the stated range of magnitudes, both signs, both sides of the separator',
 'Tests look at a few values; signs, carries at 999999.5 and positions of the point at the borders of exponential notation escape.',
 [U+'io.hpp',U+'impl.hpp'],[('six digit text',U+'io.hpp: tostring, mantissa, int_mantissa_string'),('decimal point and exponent',U+'impl.hpp: insert_dot, format_exp')])
add('P31','Second-order variables are values: questions, copies, other uses do not alter',
 'Operations and questions on second-order variables leave their operands as they were; a copy keeps its mean, derivatives, moments, covariances and identity whatever is done to the original afterwards (operations, in-place updates, self-assignment, moves, swaps, storage in growing containers), and the other way round; asking for mean, deviation, moments, derivatives or covariances before, between or after operations never changes any later answer.',
 ['histories','inputs'],'all bounded histories of operations and questions on variables of every kind, all values, both propagation modes',
 'Tests build one expression and ask once; shared storage between copies, stale caches or an operand altered by an operation need a history of operations, copies and questions.',
 [U+'ureal2.hpp',U+'internal/hessgrad.hpp'],[('value semantics of the stored derivatives',U+'internal/hessgrad.hpp: HessGrad'),('questions and operations',U+'ureal2.hpp: n, s, m, grad, hess, unary, binary, binary_assign')])
add('P32','Operations on const variables write no shared memory: threads may share them',
 'Every operation and question that takes variables by const reference writes neither to the variables (including the memory they own) nor to hidden state of the library other than the identity counter used by constructors of new variables. So variables may be read by any number of threads at once with the result each thread would get alone.',
 ['schedules','inputs'],'every operation taking const variables, operands of the stated kinds, all values',
 'No test uses threads; a cache filled behind a const interface, or a static scratch variable, gives right answers in every sequential test and wrong ones under rare schedules.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'math.hpp',U+'ureals.hpp',U+'internal/hessgrad.hpp'],[('const operations, first order',U+'ureal.hpp: const s, var, cov, corr, unary, binary, nary'),('const operations, second order',U+'ureal2.hpp: m, n, s, skew, kurt, grad, hess, cov, unary, binary')])
add('P33','Every computation is carried out in the numerical type the variables use',
 'The library is a template on the numerical type: means, deviations, moments, derivatives, covariances and results of functions are computed in that type throughout. No value passes through a narrower type on the way (a global function on double, a local variable or parameter of fixed type), no constant is less precise than the type, and wrapping the numbers in a type of their own, or converting variables between two types of the same precision, changes no result.',
 ['inputs','programs'],'every listed operation, question and function of both classes, operands of the stated kinds, all values',
 'Most tests use double or float, for which a detour through double changes nothing; the few with mpfr numbers compare loosely. A difference shows only in the last digits of long double or with a user-defined type.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'math.hpp',U+'functions.hpp',U+'distr.hpp'],[('overload choice in functions',U+'math.hpp: using-declarations'),('numerical derivatives',U+'functions.hpp'),('propagation',U+'ureal.hpp: unary, binary, nary; '+U+'ureal2.hpp; '+U+'internal/*.hpp')])
add('P34','Means and deviations lose neither accuracy nor range of the type on the way',
 'The mean of the result of an operator or of a mathematical function is, for all means in the range of the floating point type, the exact value to within a few units in the last place: no cancellation, premature overflow or underflow that the operation on plain numbers does not have. The deviation of an independent variable and of a one-variable result is as accurate as |slope| times the deviation; of sums, products and quotients of independent variables it neither overflows nor vanishes at moderate magnitudes.',
 ['inputs'],'all normal doubles and zero as means; deviations, slopes of one-variable results likewise; magnitudes 1e-60..1e60 where squares are summed',
 'Mathematically equal formulas (exp(x) - 1 for expm1, the root of a sum of squares for hypot, multiplying by a reciprocal) differ only near special points or at extreme magnitudes; tests use numbers near 1.',
 [U+'ureal.hpp',U+'ureal2.hpp',U+'math.hpp'],[('means of functions',U+'math.hpp'),('means of operators',U+'ureal.hpp: operators; '+U+'ureal2.hpp: operators'),('deviations',U+'ureal.hpp: s, s2, unary')])
add('P35','Formatting never fails on a finite number and survives inexact logarithms',
 'Formatting a variable with finite mean and finite nonzero deviation always ends with a text of the documented form, whatever the decade (to the ends of the range of the floating point type, denormal numbers included) and however close to a power of ten mean or deviation are: last digits of mean and deviation aligned, both within half a unit of the last digit, the requested number of digits or one more. It does not depend on logarithms being exact or on powers of ten not overflowing.',
 ['inputs'],'means and deviations in the stated decades, in the gap below a power of ten where a floating point logarithm is rounded up, and just below the reach of its single precision value',
 'The logarithm is wrong only within a few units in the last place of a power of ten, and powers of ten overflow only for tiny numbers: tests print numbers of ordinary size.',
 [U+'io.hpp',U+'impl.hpp'],[('decimal exponent and mantissa',U+'io.hpp: exponent, int_mantissa, mantissa'),('number of digits',U+'io.hpp: naive_ndigits, ndigits'),('text',U+'io.hpp: format; '+U+'impl.hpp: insert_dot')])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80,p['title']
print(len(P))
