"""Source of properties.jsonl (run tools/gen.py to regenerate it and MANIFEST.json)."""
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/actuarialmath/" + f for f in files],
                               mechanism=[dict(name=n, where="src/actuarialmath/" + w) for n, w in mech])))

SAMPLES = ("The tests are about 137 exam answers compared within 1%: each exercises one argument combination on one "
           "mortality basis, so ")

prop("C01", "Every way of stating an interest rate yields one consistent basis",
 "However a non-negative interest rate is stated (annual rate, discount rate, discount factor, force, m-thly rate or m-thly discount rate, or a discount function), the annual rate, discount rate, discount factor, force and discount function read back describe the same time value of money, with v(t+u)=v(t)v(u). "
 "Converting to any m-thly or continuous form and back returns the starting rate, zero included, and doubling the force of interest squares the discount factor in whichever form is used.",
 ["inputs", "configurations"], "every input form x every rate of the alphabet (0 included) x m in {0,1,2,4,12,...}",
 SAMPLES + "a form or a zero rate that no exam question uses is never checked.", ["interest.py", "life.py"],
 [("constructor and conversions", "interest.py:Interest.__init__, mthly, double_force"), ("rate attached to a life", "life.py:Life.set_interest")])
prop("C02", "Annuity-certain factors equal the present value of the payments",
 "For every non-negative interest rate (zero included), whole-year term or perpetuity (perpetuity only when the rate is positive), payment frequency, and due/immediate/continuous timing, the annuity-certain factor equals the sum (or integral) of the discounted payments.",
 ["inputs", "configurations"], "rate alphabet incl. 0 x term 0..N and perpetuity x frequency {0,1,2,4,12} x due/immediate",
 SAMPLES + "only a couple of annuity-certain factors are reached, never at zero interest.", ["interest.py"],
 [("annuity-certain factor", "interest.py:Interest.annuity")])
prop("C03", "Moments of finite distributions and portfolio percentiles are exact",
 "Means and variances of Bernoulli, binomial and two-component binomial-mixture variables, variances and covariances of weighted sums, and the conditional-variance decomposition equal the moments obtained by enumerating every outcome. Portfolio percentile and probability are inverse functions of each other and scale with the number of policies as the mean and variance of a sum of independent copies.",
 ["inputs"], "every probability/value/weight of the alphabet, N up to the bound, all 2^N outcomes",
 SAMPLES + "only one mixture and a few percentiles are evaluated.", ["life.py"],
 [("moment formulas", "life.py:Life.bernoulli, binomial, mixture, conditional_variance, variance, covariance"), ("normal approximation", "life.py:Life.portfolio_percentile, portfolio_cdf, quantiles_frame")])
prop("C04", "Survival, density, lives and force describe one lifetime law",
 "A lifetime law specified by any one of survival probability, density, number of lives, or force of mortality yields the same survival and deferred death probabilities, densities, forces and numbers of lives (up to the radix), for every age, select duration and time within the law's range. Survival probabilities compose multiplicatively and deaths between integer ages are differences of lives.",
 ["inputs", "configurations"], "every specification form x every law of the alphabet x age x duration x time x deferral",
 SAMPLES + "each specification form is used with duration 0 and one or two ages.", ["survival.py", "actuarial.py"],
 [("derivation between forms", "survival.py:Survival.set_survival"), ("actuarial forms", "survival.py:Survival.l_x, d_x, p_x, q_x, f_x, mu_x")])
prop("C05", "Expected future lifetimes are the moments of the lifetime distribution",
 "The curtate and complete expected lifetimes, their limited-term versions, second moments and variances equal the corresponding moment of the (limited) future lifetime under the survival law, for every age, select duration and term, including terms of zero, one year, beyond the limiting age, and whole life.",
 ["inputs", "configurations"], "every bounded mortality chain of the alphabet x age x duration x term x curtate/complete x moment 1, 2, variance",
 SAMPLES + "variance and second moments are never reached and durations are zero.", ["lifetime.py", "actuarial.py"],
 [("moments of lifetime", "lifetime.py:Lifetime.e_x"), ("term limit", "actuarial.py:Actuarial.max_term, add_term")])
prop("C06", "Fractional-age functions follow UDD or constant force between integer ages",
 "Under the chosen between-ages assumption (uniform deaths or constant force), lives, survival, deferred mortality, density, force, pure endowments and limited expected lifetimes at any fractional age and duration agree with the interpolated lives, however the whole and fractional parts of the age are split between age, duration and fraction. At and between integer ages the results agree with the integer-age functions, provided mortality in the year is below certainty for constant force.",
 ["inputs", "configurations"], "both assumptions x every mortality chain x age x duration x fraction grid (beyond one year included) x term grid x deferral grid",
 SAMPLES + "fractions crossing several integer ages and deferred fractional mortality are barely touched.", ["fractional.py"],
 [("fractional age functions", "fractional.py:Fractional.l_r, p_r, q_r, mu_r, f_r, E_r, e_r, e_approximate")])
prop("C07", "Discrete insurances equal the expected discounted benefit",
 "For every age, select duration, deferral, term, benefit, endowment and interest rate (zero included), the value of whole life, term, deferred, endowment, pure endowment, increasing, decreasing and arbitrary-benefit insurances paid at the end of the year of death equals the probability-weighted discounted benefit over every possible year of death. Terms past the limiting age act as whole life.",
 ["inputs", "configurations"], "every bounded mortality chain x interest alphabet x full cross product of contract shape arguments",
 SAMPLES + "select durations, deferrals, non-unit benefits and zero interest are rarely combined.", ["insurance.py", "actuarial.py"],
 [("insurance values", "insurance.py:Insurance.E_x, A_x, whole_life_insurance, term_insurance, deferred_insurance, endowment_insurance, increasing_insurance, decreasing_insurance")])
prop("C08", "Insurance second moments and variances match the benefit distribution",
 "For every contract shape, benefit, endowment, deferral, term and interest rate, the second moment and the variance of the discounted insurance benefit (discrete or continuous) equal those of the present-value random variable obtained by enumerating the time of death.",
 ["inputs", "configurations"], "as C07, for moment 2 and variance, with the end-of-year and moment-of-death payment conventions",
 SAMPLES + "variance is only reached for a few unit-benefit contracts.", ["insurance.py"],
 [("moments", "insurance.py:Insurance.insurance_variance, E_x, A_x and shape functions")])
prop("C09", "Discrete life annuities equal the expected discounted payments",
 "For every age, select duration, deferral, term, benefit and interest rate (zero included), the value and variance of whole life, temporary, deferred, certain-and-life, increasing, decreasing, immediate and arbitrary-benefit annuities with yearly payments equal the mean and variance of the discounted payments actually made over every possible year of death. Guaranteed payments are made whether or not the life survives.",
 ["inputs", "configurations"], "every bounded mortality chain x interest alphabet x full cross product of contract shape arguments",
 SAMPLES + "durations, deferrals, non-unit benefits, variance and zero interest are rarely combined.", ["annuity.py"],
 [("annuity values", "annuity.py:Annuity.a_x, whole_life_annuity, temporary_annuity, deferred_annuity, certain_life_annuity, increasing_annuity, decreasing_annuity, immediate_annuity"), ("twins", "annuity.py:Annuity.insurance_twin, annuity_twin, annuity_variance")])
prop("C10", "Continuous insurances and annuities equal the integral over the lifetime law",
 "For every age, select duration, deferral, term, benefit and interest rate, insurances payable at the moment of death and annuities payable continuously equal the integral of the discounted benefit against the lifetime law, and insurance and annuity on the same life satisfy A = 1 - delta a.",
 ["inputs", "configurations"], "piecewise uniform, piecewise constant-force, exponential and de Moivre laws x contract shape cross product",
 SAMPLES + "continuous contracts are tested at duration zero with one term each.", ["insurance.py", "annuity.py"],
 [("continuous insurance", "insurance.py:Insurance.A_x and shape functions"), ("continuous annuity", "annuity.py:Annuity.a_x and shape functions")])
prop("C11", "Present values, times of death and probabilities map into each other",
 "For insurances and annuities, the present value at a time of death, the time of death giving a present value, the probability of a present value and the value at a probability are mutually consistent: each agrees with the cash flow of the contract evaluated at every time of death, and the inverse maps undo the forward maps.",
 ["inputs", "configurations"], "smooth and stepwise laws x every time/probability grid point x contract shapes x discrete/continuous",
 SAMPLES + "a handful of percentiles on constant-force lives are compared.", ["insurance.py", "annuity.py"],
 [("insurance Z maps", "insurance.py:Insurance.Z_x, Z_t, Z_from_t, Z_to_t, Z_from_prob, Z_to_prob"), ("annuity Y maps", "annuity.py:Annuity.Y_x, Y_t, Y_from_t, Y_to_t, Y_from_prob, Y_to_prob")])
prop("C12", "Net premiums satisfy the equivalence principle",
 "For every age, select duration, deferral, term, premium-payment term, benefit, endowment (flat, net-single-premium return or initial cost included), interest rate and discrete or continuous payment, the net premium equates the expected present value of premiums and benefits over every time of death, so the expected net loss at issue is zero.",
 ["inputs", "configurations"], "every bounded mortality chain x interest alphabet x contract shape cross product, discrete and continuous",
 SAMPLES + "only a few contract combinations are evaluated.", ["premiums.py"],
 [("net premium", "premiums.py:Premiums.net_premium"), ("insurance-annuity relation", "premiums.py:Premiums.insurance_equivalence, annuity_equivalence, premium_equivalence")])
prop("C13", "Gross premiums cover benefits and all expenses exactly",
 "For every combination of benefit, endowment, initial and renewal policy and percent-of-premium expenses and settlement expense, the gross premium equates expected premiums with expected benefits plus expenses under the equivalence principle, so the expected gross loss at issue is zero. Insurance-to-annuity, annuity-to-insurance and premium-to-insurance conversions are consistent with each other for discrete and continuous contracts.",
 ["inputs", "configurations"], "expense alphabets cross product x mortality chains x discrete/continuous",
 SAMPLES + "expense combinations occur singly.", ["premiums.py", "policyvalues.py"],
 [("gross premium", "premiums.py:Premiums.gross_premium, portfolio percentile"), ("equivalences", "premiums.py:Premiums.insurance_equivalence, annuity_equivalence, premium_equivalence")])
prop("C14", "Net policy values are the conditional expected future loss",
 "For whole life and endowment insurance policies, at every policy duration from issue to expiry, the net policy value and the variance of the net future loss computed for the original age, select duration and term equal the mean and variance of future benefits less future net premiums over every time of death after that duration, zero at issue and the endowment at maturity.",
 ["inputs", "configurations"], "mortality chains x interest x whole life / endowment terms x every duration x discrete/continuous",
 SAMPLES + "net policy values are compared at a single duration per policy.", ["policyvalues.py"],
 [("net future loss", "policyvalues.py:PolicyValues.net_policy_value, net_policy_variance, net_variance_loss, net_future_loss")])
prop("C15", "Gross policy values are the conditional expected gross future loss",
 "For every contract terms (premium, expenses, settlement, endowment, whole life or term) and every policy duration, the gross policy value and the variance of the gross future loss equal the mean and variance of future benefits and expenses less future premiums over every time of death after that duration, with initial expenses counted only at issue.",
 ["inputs", "configurations"], "mortality chains x interest x contract-term alphabets x every duration x discrete/continuous",
 SAMPLES + "each contract is valued at one or two durations.", ["policyvalues.py"],
 [("gross future loss", "policyvalues.py:PolicyValues.gross_policy_value, gross_policy_variance, gross_variance_loss, gross_future_loss")])
prop("C16", "The gross-loss random variable, its time and its probability agree",
 "For every contract, the loss at issue as a function of time of death is the present value of benefits and expenses less premiums for that lifetime, its expectation is the gross policy value, and for whole life contracts the loss/time and loss/probability maps are inverse to each other.",
 ["inputs", "configurations"], "contract alphabets x every time of death of the chain x probability grid",
 SAMPLES + "only single percentile points on smooth laws are compared.", ["policyvalues.py"],
 [("loss maps", "policyvalues.py:PolicyValues.L_from_t, L_to_t, L_from_prob, L_to_prob")])
prop("C17", "Contract terms give the premiums and expenses they were set to",
 "A contract remembers every term it was given through any sequence of updates; its net-of-expense premium and claim amounts are computed from those terms, its initial costs exceed the renewal costs by exactly the extra first-year expenses, and its renewal view has renewal expenses in the first year and changes nothing in the original.",
 ["histories", "configurations"], "every sequence of set_contract / renewals operations up to the depth bound over small term alphabets",
 SAMPLES + "renewal views are built once and the original is not inspected afterwards.", ["policyvalues.py"],
 [("contract terms", "policyvalues.py:Contract.set_contract, renewals, renewal_profit, initial_cost, claims_cost, premium_terms")])
prop("C18", "Reserve recursions hold in every year, forward and backward",
 "Reserves filled by recursion satisfy, in every policy year, accumulated reserve plus premium less expenses equals expected benefits plus expected next reserve, whichever reserves were given (first, last or in between) and in whatever order they were given, and agree with the prospective policy value of the contract.",
 ["histories", "inputs", "configurations"], "mortality chains x contract alphabets x every choice and order of starting reserves",
 SAMPLES + "each reserve test fills from one boundary value.", ["reserves.py"],
 [("reserve fill", "reserves.py:Reserves.set_reserves, fill_reserves, t_V_forward, t_V_backward, t_V")])
prop("C19", "Modified and interim reserves follow from the year-end reserves",
 "The interim reserve at any fraction of a policy year, projected from the start or discounted from the end of the year, agrees with the year's recursion, and full preliminary term reserves and premiums equal those of the corresponding policy issued one year later with zero first-year reserve.",
 ["inputs", "configurations"], "mortality chains x contract alphabets x fraction grid x every duration",
 SAMPLES + "one interim reserve and one preliminary-term policy are evaluated.", ["reserves.py"],
 [("interim reserves", "reserves.py:Reserves.r_V_forward, r_V_backward"), ("full preliminary term", "reserves.py:Reserves.FPT_premium, FPT_policy_value")])
prop("C20", "Life tables fill to the same table from any sufficient inputs",
 "A life table given any sufficient, consistent mix of lives, deaths, survival and mortality rates over its ages, in one call or several, in any order, fills in all the other entries that those inputs determine and answers with the same table; entries that are not determined are not invented.",
 ["histories", "inputs"], "mortality chains x every per-age choice of given column x every split into calls x orders",
 SAMPLES + "each test supplies one fixed set of columns in one call.", ["lifetable.py"],
 [("table entry and completion", "lifetable.py:LifeTable.set_table, fill_table, __getitem__, frame")])
prop("C21", "Life table functions agree with the table at every age, including its end",
 "Survival, deferred mortality, deaths, lives, lifetimes, pure endowments, insurances, annuities and fractional-age functions of a life table equal the values determined by its entries for every age, term and deferral, including those that reach or pass the last age of the table, where no life survives.",
 ["inputs", "configurations"], "mortality chains x age x term x deferral up to and past the last age x interest alphabet",
 SAMPLES + "terms running past the end of a table are not queried.", ["lifetable.py", "insurance.py", "annuity.py"],
 [("table queries", "lifetable.py:LifeTable.l_x, d_x, p_x, q_x, e_x, E_x, mu_x, f_x")])
prop("C22", "Select tables are completed consistently with their ultimate table",
 "A select table given any sufficient mix of rates, lives, deaths, lifetimes, insurances or annuities by age of selection and duration, through bulk or row-wise entry in any order, completes to a table in which every entry satisfies the one-year recursions and rejoins the ultimate column after the select period.",
 ["histories", "inputs"], "select period 1..2 x select mortality alphabets x columns supplied x order of entry calls",
 SAMPLES + "two published select tables are used.", ["selectlife.py"],
 [("select table", "selectlife.py:SelectLife.set_table, set_select, fill_table, get_sel, isin_sel, frame")])
prop("C23", "Select-life values use the rates of the selected life",
 "Survival, mortality, lives, lifetimes, insurances, annuities and premiums of a life selected at [x] with s years elapsed use select rates during the select period and ultimate rates afterwards, for every x, s, term and deferral that stay within the table.",
 ["inputs", "configurations"], "select period 1..2 x select mortality alphabets x [x]+s x contract shapes",
 SAMPLES + "values at duration one or more are rarely queried.", ["selectlife.py"],
 [("select queries", "selectlife.py:SelectLife.l_x, p_x, q_x, e_x, A_x, a_x, E_x")])
prop("C24", "The standard ultimate table is internally consistent with its Makeham law",
 "For every age of the standard ultimate life table, under any interest rate and Makeham parameters, lives, mortality, whole life, endowment, term insurances, annuities-due and pure endowments (and their doubled-force versions) are those of the stated Makeham law, and the displayed table shows these values.",
 ["inputs", "configurations"], "every age of the table x interest alphabet x parameter alphabet x every column",
 SAMPLES + "a dozen entries of the table are used.", ["sult.py"],
 [("SULT", "sult.py:SULT.__init__, __getitem__, frame")])
prop("C25", "Whatever the recursion engine derives is a true consequence of the facts given",
 "Given any set of facts consistent with a life and interest rate (survival, mortality, lifetimes, insurances, annuities of any age, term, deferral, benefit), every quantity the recursion engine reports equals its value on that life; it never reports a value the facts contradict.",
 ["histories", "inputs"], "every subset of the fact alphabet up to the size bound, and every set of facts one textbook relation needs, x every query of the alphabet, on several mortality chains",
 SAMPLES + "the recursion tests give a few specific fact sets and query one value each.", ["recursion.py"],
 [("recursion engine", "recursion.py:Recursion._get_*/_p_x/_q_x/_e_x/_E_x/_A_x/_IA_x/_DA_x/_a_x and public shapes")])
prop("C26", "The recursion engine finds every value one textbook step away",
 "When the facts given determine a quantity through one textbook relation (a one-year recursion forward or backward, splitting a term, endowment = term + pure endowment, increasing + decreasing identity, A = 1 - d a, variance from two moments, complements of survival, and survival chained or un-chained by one year), the recursion engine returns that quantity's value rather than failing.",
 ["inputs", "configurations"], "every relation x ages x terms x benefits x mortality chains x interest alphabet",
 SAMPLES + "each relation is exercised at most once or twice, in one direction.", ["recursion.py"],
 [("recursion rules", "recursion.py:Recursion")])
prop("C27", "Recursion facts are stored independently of order and display settings",
 "Facts given to the recursion engine can be given in any order and repeated, can be replaced by new values, are returned exactly when queried, are unaffected by queries, by other instances and by display settings, and answers do not depend on what was queried before.",
 ["histories"], "every sequence of set / query operations up to the depth bound over a small fact alphabet",
 SAMPLES + "one history per test.", ["recursion.py"],
 [("fact store", "recursion.py:Recursion.set_*/_put/_get and blog display")])
prop("C28", "Special mortality laws match their defining survival functions",
 "For the Beta, uniform (de Moivre), Makeham and Gompertz laws, survival, mortality, density, force, lives, expected lifetimes, pure endowments, insurances and annuities computed by shortcut formulas equal those obtained from the law's survival function for every age, duration, term, moment and interest rate (zero included).",
 ["inputs", "configurations"], "law parameter alphabets x age x duration x term x moments x interest alphabet",
 SAMPLES + "one or two parameter sets per law with whole-life terms.", ["mortalitylaws.py"],
 [("laws", "mortalitylaws.py:MortalityLaws, Beta, Uniform, Makeham, Gompertz")])
prop("C29", "Constant-force shortcuts equal exponential-lifetime values",
 "For every constant force, interest rate (zero included), age, term, deferral, benefit, moment and discrete or continuous payment, survival, lifetimes, pure endowments, insurances, annuities and present-value percentiles computed by constant-force shortcuts equal those of an exponential lifetime.",
 ["inputs", "configurations"], "force alphabet x interest alphabet x contract shapes x moments",
 SAMPLES + "a few closed forms with unit benefit are used.", ["constantforce.py"],
 [("shortcuts", "constantforce.py:ConstantForce")])
prop("C30", "Extra mortality risks adjust exactly the rates they should",
 "A life with extra risk (added force, multiplied force, multiplied rate or age set-back) has, at every age and duration, exactly the adjusted one-year mortality of its standard life, with every multi-year survival, insurance and annuity value following from the adjusted rates; the standard life is left unchanged.",
 ["inputs", "configurations", "histories"], "risk kinds x extra-risk alphabet x standard mortality chains x ages x query histories",
 SAMPLES + "one risk kind per test and one value each.", ["extrarisk.py"],
 [("adjusted life", "extrarisk.py:ExtraRisk.__init__, __getitem__")])
prop("C31", "m-thly insurances and annuities equal sums over m-thly payment dates",
 "For every payment frequency, age, duration, deferral, term, benefit, endowment and interest rate, m-thly insurances and annuities (and their second moments and variances) equal the expected discounted payments over m-thly dates under the life's fractional-age mortality.",
 ["inputs", "configurations"], "m alphabet x mortality chains x fractional assumption x contract shapes",
 SAMPLES + "m-thly values are compared for two or three contracts.", ["mthly.py"],
 [("m-thly sums", "mthly.py:Mthly")])
prop("C32", "UDD m-thly values are exact for uniformly distributed deaths",
 "For every payment frequency (continuous included), age, duration, deferral, term, benefit, endowment and interest rate, insurances and annuities adjusted under uniform distribution of deaths equal the values obtained by enumerating the m-thly (or continuous) payments on a life whose deaths are uniform in each year, insurance and annuity remain in the twin relation, and adjustment factors equal their definitions.",
 ["inputs", "configurations"], "m alphabet x mortality chains x interest alphabet x contract shapes",
 SAMPLES + "single values within 1%.", ["udd.py", "mthly.py"],
 [("UDD adjustments", "udd.py:UDD")])
prop("C33", "Woolhouse annuities apply the stated correction terms",
 "For every payment frequency (continuous included), age, duration, deferral, term, benefit and interest rate, the two- and three-term Woolhouse annuities and insurances equal the yearly values corrected by exactly the stated terms with the stated or approximated force of mortality, and temporary plus deferred equals whole life.",
 ["inputs", "configurations"], "m alphabet x two/three terms x mortality chains x interest x contract shapes",
 SAMPLES + "two values within 1%.", ["woolhouse.py"],
 [("Woolhouse", "woolhouse.py:Woolhouse")])
prop("C34", "Queries change nothing and values follow the current assumptions",
 "Asking a life object for values never changes what it, or any other life object, answers afterwards: answers depend only on the mortality and interest assumptions last set, whatever was queried or set before and on whichever objects.",
 ["histories"], "every sequence of set-interest / set-basis / query operations up to the depth bound, on two interleaved objects of every class",
 SAMPLES + "each test builds a fresh object and queries it in one order.", ["life.py", "survival.py", "lifetable.py", "selectlife.py", "recursion.py", "udd.py", "woolhouse.py", "policyvalues.py", "reserves.py"],
 [("mutable state", "*.py: set_* methods, temporary interest changes in insurance/annuity moments")])
prop("C35", "Root finding and differentiation helpers return solutions",
 "For every monotone function of the alphabet, target in its range and initial guess or guess range, the solver returns an argument whose function value is the target and leaves the function evaluated last at that argument; differentiation returns the derivative for scalar functions.",
 ["inputs"], "function family alphabet x target grid x guess alphabet",
 SAMPLES + "a few solves from one guess each.", ["actuarial.py"],
 [("numerical helpers", "actuarial.py:Actuarial.solve, derivative, integral, isclose, add_term, max_term")])
prop("C36", "Arguments mean what the signatures say",
 "For every public method and constructor of every class and every combination of the arguments given, an argument left out means its documented default, and arguments given by position mean those of the documented order.",
 ["inputs", "configurations"], "methods x each argument left out or given x contexts of the other arguments (left out or another value)",
 SAMPLES + "each test passes one selection of arguments.", ["interest.py", "life.py", "survival.py", "lifetime.py", "fractional.py", "insurance.py", "annuity.py", "premiums.py", "policyvalues.py", "reserves.py", "recursion.py", "lifetable.py", "selectlife.py", "sult.py", "mortalitylaws.py", "constantforce.py", "extrarisk.py", "mthly.py", "udd.py", "woolhouse.py"],
 [("signatures", "every public method of the package")])
prop("C37", "Printed recursion derivations are true and lead to the answer",
 "Every equation a Recursion prints while it answers is true of the life its facts come from, for every consistent set of discrete facts and every query; when the facts are those of one textbook relation, the derivation is titled with the quantity asked and derives it from the facts given, and neither printing it nor its format (text or LaTeX) changes the answer. A Recursion that is not verbose prints nothing.",
 ["inputs", "configurations"], "fact sets of textbook relations and pairs of an alphabet x queries x benefit levels x mortality chains x interest x durations x text/LaTeX/quiet",
 SAMPLES + "tests look at answers, never at what was printed.", ["recursion.py"],
 [("derivations", "recursion.py:_Blog, Recursion._*_x blog calls")])
prop("C38", "Plots show the values they are named for",
 "For every age, duration, stopping time, benefit or contract, and annotated time, the plots of insurance, annuity and loss present values draw at each time the present value of that death time, mark, label and return the value at the annotated time, draw and label survival from the attained duration on the second axis when asked, show the given title, and reserve plots show exactly the reserves recorded.",
 ["inputs", "configurations"], "plot methods x mortality chains (function, lives, table, select table) x age/duration x stop x annotated time x benefit/contract x discrete/continuous x dual",
 SAMPLES + "a test that draws a plot looks at no point of it.", ["insurance.py", "annuity.py", "policyvalues.py", "reserves.py"],
 [("plots", "insurance.py:Insurance.Z_plot; annuity.py:Annuity.Y_plot; policyvalues.py:PolicyValues.L_plot; reserves.py:Reserves.V_plot")])
prop("C39", "Requests outside a stated domain are refused",
 "Requests outside the domains the library states raise an error instead of returning a value, whatever the other arguments, and requests at the edge of those domains are answered: negative ages, durations, times and fractions of a year asked of survival, fractional-age and payment functions; percentile levels of one or more; probabilities outside [0, 1] or less than one trial; moments that are not defined; decreasing benefits without a term; no (or only negative) interest rate, negative payment frequency, a discount function that is not callable or not one at time zero; survival functions that are missing or not callable; parameters outside a mortality law's range or a fractional assumption given to a law; unknown kinds or negative amounts of extra risk; unknown table columns; both or neither expectation to approximate; an endowment premium without its pure endowment.",
 ["inputs", "configurations"], "entry points x values just outside and at the edge of each argument's domain x every combination of the other arguments' alphabets x classes",
 SAMPLES + "tests make no invalid request.", ["survival.py", "lifetime.py", "fractional.py", "interest.py", "life.py", "insurance.py", "annuity.py", "mthly.py", "udd.py", "mortalitylaws.py", "extrarisk.py", "premiums.py", "lifetable.py", "sult.py"],
 [("preconditions", "assertions and raised exceptions at the entry of public methods")])
prop("C40", "Data handed over is neither changed nor kept",
 "Tables, rates, columns, reserve values and contracts given to an object (or taken as a column from a life table or a life under extra risk) are copied as they are when entered: entering them, filling, and asking never change them, two objects given the same data do not influence one another, and whatever their owner later does to the data changes no answer; each object answers as one that was given its own copy.",
 ["histories"], "every interleaving of two objects entering, re-entering, changing and asking, with their owner changing the data, x data alphabets x entry methods",
 SAMPLES + "tests never use the same data twice.", ["lifetable.py", "selectlife.py", "reserves.py", "extrarisk.py", "policyvalues.py"],
 [("data entry", "LifeTable.set_table; SelectLife.set_table, set_select; Reserves.set_reserves, fill_reserves; ExtraRisk.__getitem__; LifeTable.__getitem__")])
