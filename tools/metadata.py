def fill(prop, na, g):
    I, CV, DC, CP, IR, CR, VO, FX = (g[k] for k in (
        'I', 'CV', 'DC', 'CP', 'IR', 'CR', 'VO', 'FX'))
    CF, CO, PO, PD, PR, PL, RC, M = (g[k] for k in (
        'CF', 'CO', 'PO', 'PD', 'PR', 'PL', 'RC', 'M'))
    prop('C01', 'Interpolations and curves reproduce the points they are built on',
         'Whatever the interpolation, the value at a given point is exactly '
         'the value given for it, for any number of points in any order, given '
         'as two lists or as a mapping (rate interpolations excepted for a '
         'point at zero). Two equal points are refused by curves.',
         'inputs configurations',
         'all node positions, values and several list orders for every '
         'interpolation kind and piecewise scheme, 1..4 nodes (thorough 5), up to 33 '
         '(thorough 70) at fixed distances',
         'tests use a few fixed grids; the branch taken depends on the '
         'position of every query relative to every node and on the sort '
         'order of the input.',
         [I, CV], [('piecewise schemes and kinds', I), ('curve build', CV)],
         'bounded number of nodes; exact reals instead of floats')
    prop('C02', 'Interpolations give the documented value between and outside points',
         'Between and outside its points each interpolation kind gives the '
         'documented value (constant, left, right, nearest with the left of '
         'two equally near points, linear, '
         'log-linear in value or in annual rate, zero), and piecewise schemes '
         'switch exactly at the first and the last point to their left and '
         'right rule. The order of the given points is irrelevant and default '
         'curves never leave the range of their values.',
         'inputs configurations',
         'all node positions, values and query points (away from jumps) for '
         'every kind and scheme, 1..4 nodes (thorough 5), up to 33 (thorough '
         '70) at fixed distances',
         'tests sample queries on fixed grids; segment selection has one case '
         'per relative position.',
         [I, CV], [('kinds', I), ('piecewise schemes', I)],
         'bounded number of nodes; exact reals; queries within 1/1000 of a '
         'jump of a discontinuous kind are left out')
    prop('C03', 'A curve depends on its final points only, not on its history',
         'Setting points one by one, in any order, overwriting or new, gives '
         'the same function as building the curve from the resulting points, '
         'also while a spread or fixings are set, which never become part of '
         'the points. Lists given to a curve and other curves built from the '
         'same lists are never changed, and a fixing decides the value at its '
         'date only.',
         'histories inputs',
         'sequences of 1..3 updates (thorough more) of existing or new points '
         'on curves with 1..3 points (up to 12, thorough 40, at fixed '
         'distances) of all classes, symbolic points, values '
         'and query',
         'tests update a single curve once; histories and positions are '
         'unbounded.',
         [CV, IR, CR, VO], [('item assignment', CV), ('spread', CV),
                            ('fixings', CV)],
         'bounded number of points and updates; float dates')
    prop('C04', 'Curve arithmetic is pointwise and copies are the same function',
         'Sum, difference, product and quotient of two curves of one class '
         'and origin give at every point of either curve the result of the '
         'operation on their values, keep class, origin and forward tenor, '
         'and leave both operands as they were; a divisor with a zero is '
         'refused. A curve built from the keywords of a curve, or from the '
         'curve itself, is the same function and independent of it, and '
         'iterating or subscripting follows its points.',
         'inputs configurations',
         'two operands of 1..3 points (up to 7, thorough 30, at fixed '
         'distances) on shared or interleaved grids, '
         'symbolic points, values and query; curve classes x operations',
         'tests cover one pair of curves per operation; merging grids has '
         'one case per interleaving.',
         [CV, IR], [('operators', CV), ('keywords', CV), ('casts', CV)],
         'bounded number of points; one common origin')
    prop('C05', 'Year fractions are additive, antisymmetric and use the given rule',
         'The default year fraction of two dates is their difference in days '
         'divided by 365.25 (for numbers simply their difference), additive '
         'over adjacent periods, antisymmetric and zero for equal dates. '
         'Curves measure from their origin (by default their first date) and '
         'use a day count given as function or name, which is kept when a '
         'curve is built from another.',
         'inputs configurations',
         'all dates within bounds in three representations; arbitrary linear '
         'day count functions',
         'tests evaluate single dates.',
         [DC, CV], [('default day count', DC), ('curve day count', CV)],
         'dates up to 20000 days apart; integers for days')
    prop('C06', 'Compounding conventions and their rates are inverse to each other',
         'For simple, continuous and periodic compounding (annual, '
         'semi-annual, quarterly, monthly, daily or any number of periods) '
         'the rate recovered from the factor of a rate is that rate, and the '
         'factor of the rate of a factor is that factor, each following its '
         'textbook definition. No time or no rate gives the factor one, and '
         'factors of positive rates are positive, at most one and decrease '
         'with rate and time.',
         'inputs',
         'all rates, periods and frequencies within bounds',
         'tests sample a few rates.',
         [CP], [('compounding functions', CP)],
         'exact reals; exp/log by sound axioms')

    X = 'exact reals; exp/log by sound axioms; bounded shapes'
    prop('C07', 'Discount factors, zero, cash and short rates of one curve agree',
         'For every interest rate curve class the zero rate of a period is '
         'the continuously compounded rate, and the simple cash rate the '
         'simply compounded rate, of the discount factor of that period; '
         'called with one date they mean the period from the origin. The cash '
         'rate of a start date runs over the given step, else the forward '
         'tenor of the curve. The short rate at a date is the zero rate '
         'between the two curve points around it. A spread added to a curve '
         'shifts the stored rates and all of this stays true.',
         'inputs configurations',
         'all curve points, values, period starts and ends within bounds for '
         'zero rate, discount factor, cash rate and short rate curves, float '
         'and calendar dates, with and without flat spread',
         'tests compare a few periods of one curve per class; each relative '
         'position of period and points is its own branch.',
         [IR, CP], [('conversions between rates', IR),
                    ('compounding', CP)], X)
    prop('C08', 'Discount factors multiply over adjacent periods',
         'For every interest rate curve class the discount factor from s to t '
         'times the one from t to u is the one from s to u, the factor of an '
         'empty period is one and factors are positive. The factor from the '
         'origin is the one the class defines: the stored factor, the '
         'exponential of minus rate times time, the rates of a cash rate '
         'curve compounded simply tenor by tenor, or the short rates accrued '
         'day by day.',
         'inputs configurations',
         'all curve points and values and any three dates, all classes; up '
         'to 4 tenors or days for stepwise classes (14 and 40, thorough 60 and '
         '400, with stepwise rates)',
         'tests check single periods.',
         [IR, CV], [('discount factors by class', IR)], X)
    prop('C09', 'A curve returns the rates, factors and prices given to it',
         'The getter belonging to a curve class (zero rate, discount factor, '
         'cash rate, short rate, survival probability, default probability, '
         'intensity, hazard rate, marginal survival and default probability, '
         'terminal and instantaneous volatility, forward price) returns at '
         'each point exactly what was given for it, with float or calendar '
         'dates, with given or default origin and tenor. Probabilities '
         'outside [0, 1] are cut to that range.',
         'inputs configurations',
         'all points, orders and values of 1..3 points for every curve class',
         'tests rely on a few fixed curves.',
         [IR, CR, VO, FX, CV], [('getters', IR), ('probabilities', CR),
                                ('volatilities', VO)], X)
    prop('C10', 'Casting a curve to another class keeps it on the dates given',
         'A curve cast to another class of its family (interest rate, '
         'credit, volatility) has the values of the source in terms of '
         'what the target class stores on the dates of the source (or on '
         'given dates), and the same origin, day count, forward tenor and spread '
         'effect unless given explicitly; casting back returns the original values. '
         'A curve as data together with a curve as domain is refused.',
         'inputs configurations',
         'all pairs of classes of each family, 2..3 calendar dates, symbolic '
         'values, list and tuple domains, optional spread',
         'tests cast a handful of curves without origin, spread or day '
         'count.',
         [CV, IR, CR, VO], [('cast constructors', CV)],
         X + '; calendar grids are fixed sets')
    prop('C11', 'Survival probabilities, intensities and hazard rates agree',
         'For every credit curve class the survival probability over a period '
         'is the exponential of minus intensity times its length, default '
         'probability is one minus survival, survival multiplies over '
         'adjacent periods and stays within [0, 1] for valid inputs. Marginal '
         'probabilities multiply tenor by tenor, hazard rates accrue day by '
         'day, and the hazard rate at a date is the intensity between the '
         'curve points around it.',
         'inputs configurations',
         'all points, values and dates within bounds for all seven credit '
         'curve classes',
         'tests check single points of two curves.',
         [CR, CV], [('conversions', CR)], X)
    prop('C12', 'The swap annuity is the discounted sum of accrual periods',
         'The swap annuity of a schedule is the sum over its periods of '
         'the year fraction (day count of the curve) times the discount '
         'factor from the origin of the curve to the end of the period. With '
         'positive rates it is positive and less than the undiscounted time.',
         'inputs', 'schedules of 1..4 periods of any length (up to 40, '
         'thorough 60, of fixed length), in any order, any flat or '
         'sloped curve, float and calendar dates',
         'tests evaluate one schedule.',
         [IR], [('get_swap_annuity', IR)], X)
    prop('C13', 'Present value is the discounted sum of flows not yet paid',
         'The present value of a cashflow list is the sum of all flows '
         'at or after the valuation date, each '
         'discounted from its pay date to the valuation date (by default the '
         'origin of the curve, also if that is zero). It is linear in '
         'the amounts, additive over legs, nested or not, values rate flows '
         'with the amounts they pay and option flows as of the valuation '
         'date, and is zero without flows.',
         'inputs configurations',
         'all dates, amounts, valuation dates (before, on, between and after '
         'pay dates) and curve values for 1..3 flows in 1..3 legs (up to 21, '
         'thorough 70, flows or legs at fixed distances)',
         'tests value a few lists at one date; which flows count depends on '
         'the valuation date.',
         [PR, CF, CO], [('get_present_value', PR)], X)
    prop('C14', 'Pricing leaves flows, curves and models as they were',
         'After any pricing function (present value, yield, fair rate, '
         'accrued interest, basis point value, bucketed delta, curve fit) the '
         'flows, fixed rates, curve values, spreads and the valuation date of '
         'an option model are what they were before, whether it returned a '
         'result or failed with an error in a curve or a day count at any '
         'point of the calculation. Lists given as arguments are not '
         'changed either.',
         'fault_sequences inputs histories',
         'failures injected at the 1st to 4th evaluation (thorough 8th) of '
         'the discount curve, forward curve or day count; 1..2 legs, up to '
         '12 nested ones',
         'tests never look at the arguments afterwards and never let a curve '
         'fail.',
         [PR], [('temporary spreads and fixed rates', PR)],
         'bounded number of flows and failure positions')
    prop('C15', 'The yield to maturity reprices the flows',
         'The yield to maturity is the flat rate, in the given compounding, at '
         'which the flows are worth the given price, to the requested '
         'precision; an error is raised if there is none between the bounds. '
         'The day count given decides how times are measured.',
         'inputs',
         'all flows, prices and rates within bounds for 1..3 flows and '
         'precisions down to 0.02',
         'tests use one bond; the search has one case per sign of each '
         'intermediate value.',
         [PR, CP], [('get_yield_to_maturity', PR)],
         X + '; coarse search precision')
    prop('C16', 'The fair rate makes the flows worth the given value',
         'With the fair rate as fixed rate of every flow the present value '
         'of the list is the given one, to the requested precision, for '
         'receivers and payers, any valuation date, and whatever the fixed '
         'rates were before (they are restored, each its own). For par swaps '
         'it is the textbook rate: annuity times fair rate is the value of '
         'the other leg. An error is raised if no rate within the bounds '
         'solves it.',
         'inputs', '1..3 rate flows (thorough 4) of either sign with '
         'symbolic dates, rates, forwards, discount factors and prices (6..20 '
         'at fixed dates), precision down to 2**-48 for one flow',
         'tests use one schedule.',
         [PR], [('get_fair_rate', PR)], X + '; coarse search precision')
    prop('C17', 'Basis point value and bucketed delta are value changes',
         'The basis point value is the change of present value under a '
         'parallel shift of the curve values, scaled to one basis point. Each '
         'bucketed delta is the change under a shift that is one at its grid '
         'date, falls linearly to zero at the neighbouring grid dates and is '
         'flat beyond the first and the last, for grid dates in any order (by '
         'default the points of the delta curve); where the value is linear they '
         'add up to the basis point value. A delta curve other than the '
         'discount curve, or several, can be shifted. Flows before the '
         'valuation date do not count.',
         'inputs configurations',
         'all flow dates, amounts, curve values and grids within bounds: 1..4 '
         'grid points (thorough 6; up to 20 at fixed dates), flows before, '
         'on, between and after them',
         'tests compare sums on one grid.',
         [PR, CV], [('get_basis_point_value', PR),
                    ('get_bucketed_delta', PR), ('spread', CV)], X)
    prop('C18', 'Accrued interest is the elapsed share of the running flow',
         'Accrued interest at a date is the amount of the rate flow whose '
         'period contains it times the elapsed share of that period by the '
         'day count of the flow: zero at its start, the whole flow at its end '
         '(and, with payment offset, until it is paid), nothing before the '
         'first and after the last period. Fixed flows do not accrue; lists of '
         'legs accrue the sum of their legs.',
         'inputs configurations',
         'all period boundaries, amounts, rates, offsets and dates for 1..3 '
         'flows (thorough 5; up to 13 and 50 at fixed distances), rate, '
         'floating and contingent lists',
         'tests check few dates.',
         [PR, CF, CO], [('get_interest_accrued', PR)], X)
    prop('C19', 'A fitted curve reprices the products it was fitted to',
         'The curve fit returns one value per grid point, in the order of the '
         'grid, which may be any; a curve of '
         'these values prices the products matured at each grid point as '
         'given, to the requested precision. Grid points without product '
         'keep the value of the curve, and the curve is the same as before, '
         'also if no fit within the bounds exists, which is an error.',
         'inputs configurations',
         '1..2 (thorough 3) products and grid points, all rates and prices '
         'of curves within the bounds',
         'tests fit one swap curve.',
         [PR, CV], [('get_curve_fit', PR)], X + '; coarse search precision')
    prop('C20', 'Rate cashflows pay rate times year fraction times notional',
         'Each flow of a rate cashflow list is (fixed rate plus forward '
         'rate at the fixing date) times the year fraction of its period times '
         'its notional. Periods follow each other without gap, the first '
         'starts at the origin (also if zero; without origin one step '
         'earlier); a payment offset ends periods before the payment, a '
         'fixing offset fixes before the start. Fixed rates can be read and '
         'set. The forward curve may be a number, a function, a curve '
         '(cash rates where it has them), or an option model.',
         'inputs configurations',
         'all dates, notionals, rates and offsets for 1..4 flows (thorough '
         '6), seven kinds of forward curves, four day counts',
         'tests use single lists.',
         [CF, PO], [('rate payoff', PO), ('rate cashflow list', CF)], X)
    prop('C21', 'Option payoffs follow their pricing formula',
         'Call and put values of the intrinsic, normal (Bachelier), log '
         'normal (Black) and displaced log normal model follow their textbook '
         'formula for forward, strike, volatility and time to expiry taken '
         'from the curves of the model, with put-call parity and the '
         'intrinsic value without volatility or time, and at the money without '
         'strike. A function can be made a model. Binary models give the '
         'tight spread of the model they are built from, with its dates and '
         'curves unless given (also zero), digital formulas the '
         'probability to end above the strike. Options, strategies and '
         'contingent rate flows (rate plus floorlet minus caplet) are the '
         'sums of these times amount; cap and floor at one strike fix the '
         'rate.',
         'inputs configurations',
         'any forward, strike, volatility, expiry and amount within bounds '
         'for every option model; 1..3 options per list or strategy',
         'tests check a few strikes against stored numbers.',
         [M + 'optionpricing.py', M + 'bachelier.py', M + 'black76.py',
          M + 'displaced.py', M + 'intrinsic.py', PO, CO],
         [('formulas', M), ('option payoffs', PO)],
         'the normal distribution function is symbolic with the contract of '
         'C23; two known findings on binary models')
    prop('C22', 'Option greeks are the derivatives of option prices',
         'Delta, gamma, vega and theta of each option model are the '
         'derivatives of its call and put price (first and second in the '
         'forward, first in volatility and time), and the difference '
         'quotients of models without closed form are the quotients of the '
         'prices for the documented bumps.',
         'inputs', 'any forward, strike, volatility and expiry within bounds '
         'for every model; closed forms differentiated symbolically',
         'tests compare a few numbers coarsely.',
         [M + 'optionpricing.py', M + 'bachelier.py', M + 'black76.py',
          M + 'displaced.py'], [('greeks', M)],
         'the normal distribution function is symbolic with density as its '
         'derivative (C23)')
    prop('C23', 'The normal distribution functions are what their names say',
         'The distribution function of the models is that of the standard '
         'normal distribution: symmetric, increasing from zero to one, '
         'with the density as its derivative, and one half at zero.',
         'inputs', 'all arguments from -8 to 8 (tails to 30)',
         'tests do not cover them directly.',
         [M + 'distibutions.py'], [('normal_cdf, normal_pdf', M)],
         'exp and erf of the math library by sound axioms')
    prop('C24', 'Payment plans have the length, sum and shape they are named for',
         'A plan has one payment per period: same (the amount each '
         'time), bullet (all at the end), amortize (equal parts of the '
         'amount), annuity (sums up to the amount, grows by the rate, so '
         'that payment plus interest on the outstanding amount is constant; '
         'without rate as amortize), consumer (equal parts of amount plus '
         'simple interest). The outstanding amounts are what is left before '
         'each payment, with payments subtracted (by default) or added. '
         'Plans scale with the amount.',
         'inputs histories', 'all amounts, payments and rates, 1..6 payments, '
         'some plans up to 24 (thorough 60), plans made again',
         'the repository has no test of the amounts.',
         [PL], [('plans', PL)], 'bounded number of payments; exact reals')
    prop('C25', 'An FX container quotes consistent pairs for all currencies',
         'After adding (and adding again) any currencies, the pair of each '
         'two different currencies exists, has the curves of both as '
         'domestic and foreign curve and the quotient of the latest spots as '
         'spot, so that a pair and its inverse multiply to one and pairs '
         'triangulate, at the origin and at every forward date. A currency '
         'as subscript gives all its pairs; curves set for a currency are '
         'added with their spot. Wrong types are refused without '
         'change.',
         'histories inputs',
         '2..6 currencies added in sequence and again, symbolic '
         'spots, rates and dates',
         'tests add currencies once and compare stored numbers.',
         [FX], [('FxContainer.add', FX), ('FxForwardCurve', FX)], X)
    prop('C26', 'Rating vectors are weights that reproduce the rated value',
         'The vector of a rating on a master scale has one weight per class '
         'in ascending order of value, in [0, 1], summing up to one, only '
         'the two classes around the value are used, and the weighted sum '
         'of class values is the value. A class of the scale, by name or by '
         'value, has its own name and full weight. Values outside of the '
         'scale are refused, or multiples of the first or last class if '
         'sloppy. A scale given by names grows by equal ratios up to one.',
         'inputs configurations',
         'scales of 2..6 classes, also extended later, with symbolic values in any '
         'order, any value on, between and outside of them; the scales of '
         'the package',
         'tests use one scale and few values.',
         [RC], [('RatingClass.__iter__', RC), ('master_scale', RC)],
         'weights are rounded to seven digits: tolerance 2e-6; values '
         'within 1e-5 of a class (but not on it) are left out')
    prop('C27', 'Forward curves extrapolate their last price along the yield',
         'Up to its last point a forward price curve interpolates its '
         'prices log-linearly; beyond it grows the price of the last '
         'point (by date) with the yield given as number, function or '
         'discount curve, or stays flat. A spot price grows from its origin. '
         'An FX forward extrapolates with the quotient of the discount '
         'factors of its two curves.',
         'inputs configurations',
         'all points in several orders (1..3, thorough 4; up to 12 and 40 at '
         'fixed distances), prices, yields and '
         'query dates',
         'tests use a single spot.',
         [CV, FX], [('ForwardCurve', CV), ('FxForwardCurve', FX)], X)
    prop('C28', 'Bonds and swaps consist of the legs their terms describe',
         'Interest dates of a bond or swap are counted back by the period '
         'from the end date down to the last one after the start (for '
         'calendar dates adjusted to business days). A bond pays the '
         'notional out at the start and back at the end, or as '
         'given by a plan, with interest on what is outstanding; a plan '
         'of the wrong length is refused. A swap pays interest on one leg '
         'and receives it on the other, each with its own period, rate, '
         'forward curve and day count; offsets apply to both.',
         'inputs configurations',
         'any start, end and period with up to 4 periods (thorough 6; up to '
         '61 and 150 at fixed dates), any '
         'notional, plan, rate and offset; several calendar schedules with '
         'symbolic amounts',
         'tests use products only as input of other functions.',
         [PD, CF], [('schedule', PD), ('bond', PD),
                    ('interest_rate_swap', PD)], X)
    prop('C29', 'Terminal volatilities: total variance adds up over time',
         'The squared terminal volatility of a period times its length is '
         'the difference of total variances at its end and start (cut at the '
         'floor if given), total variance being squared volatility times '
         'time from the origin. A flat curve has one volatility for '
         'all periods.',
         'inputs', 'all points (1..3; up to 9, thorough 25, at fixed '
         'distances), volatilities, period starts and ends, '
         'with and without floor',
         'tests check few periods.',
         [VO], [('get_terminal_vol', VO)], X)
    prop('C30', 'Cashflow lists map pay dates to amounts; legs add up',
         'A cashflow list has its dates in the given order, its amount at '
         'each of them, nothing at any other date, and its own origin (given, '
         'also zero, or the first date). A list of legs has all dates of its '
         'legs once in order, the sum of its legs at each and their first '
         'origin. Called, a list gives the amounts of that moment as fixed '
         'list, with its own or the given forward curve or model; a fixed '
         'list made of any list has its dates, amounts and origin. Amounts '
         'and dates of different number, and legs that are no cashflow '
         'lists, are refused.',
         'inputs histories',
         'all dates, amounts, orders and query dates for 1..3 flows '
         '(thorough 5; up to 33 and 120 at fixed distances) and 1..3 legs '
         'sharing dates or not, nested, all list classes',
         'tests print a few lists.',
         [CF, CO, PO], [('CashFlowList', CF), ('CashFlowLegList', CF)], X)
    prop('C31', 'Rate tables list the curve value of every date and tenor',
         'A rate table has one row per date of its grid and one column per '
         'step, with the value of the curve at date plus step, cut where the '
         'next row begins; without a grid the rows are the origin and the '
         'curve points.',
         'inputs', '2..3 rows and columns with symbolic gaps (up to 14 and 8, '
         'thorough 40 and 9, at fixed distances)',
         'tests compare one printed table.',
         [CV], [('rate_table', CV)], X)
    prop('C32', 'Tables and details explain the amounts of cashflow lists',
         'The table of any cashflow list has a header and one row per pay '
         'date in the order of its dates, with the amount the list has at '
         'this date. The details of rate flows (notional, start, end, year '
         'fraction, fixed and forward rate, fixing date, tenor), of options '
         'and strategies (notional, strike, expiry, put or call, forward, '
         'volatility, time to expiry, valuation date) and of contingent rate '
         'flows (floorlet, caplet, strikes) are the ones given, and the '
         'amount is what they give. Showing a table changes nothing.',
         'inputs', 'all dates, amounts, rates, strikes, offsets and '
         'volatilities for 1..3 flows (thorough 5; up to 33 and 80 at fixed '
         'distances), 1..2 legs',
         'tests print two tables.',
         [CF, CO, PO], [('CashFlowList.table', CF), ('details', PO)], X)
    prop('C33', 'Curve integrals are averages, derivatives are slopes',
         'The integral of a linear date curve over a period is the area '
         'below its values divided by the year fraction of the period, so '
         'the average over the period: additive over adjacent periods, '
         'between the least and largest value, the value itself where the '
         'curve is flat, and for the day count of the curve. The derivative '
         'at a calendar date is the one day slope annualized, zero for '
         'flat curves. Neither changes the curve.',
         'inputs', '1..3 points (thorough 4; up to 9 and 25 at fixed '
         'distances), any period within 8 years '
         'inside or outside of the points, day counts of symbolic scale',
         'tests compare a single integral of a sampled function.',
         [CV], [('DateCurve.integrate', CV), ('DateCurve.derivative', CV)],
         X + '; the compiled quadrature of scipy is replaced by its contract '
         'for piecewise linear integrands')
