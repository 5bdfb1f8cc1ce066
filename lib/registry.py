"""The properties, and which harnesses decide each."""
LEVEL = 'other'
EXPLANATIONS = {
    'kani': ('Bounded symbolic execution of the compiled crate: the harness and every function it reaches are compiled from the '
             'current tree to goto programs, inputs are solver variables, and a SAT solver decides every assertion (and every panic, '
             'overflow, bounds and unwinding check) for all of their values within the bounds.'),
    'lsym': ('Symbolic execution of the crate\'s LLVM IR, compiled from the current tree: every path is explored, doubles are symbolic '
             'reals, and z3 decides feasibility of each branch and refutes the negation of each assertion on each path, for all values within the bounds.')}
TRUSTS = {
    'kani': ['Kani/CBMC translate the compiled MIR faithfully',
             'chrono date primitives are replaced under the solver by table-free equivalents (harness/src/fast.rs); the lemma harnesses '
             'of property P01 (thorough tier) prove the equivalence for 1900-2200',
             'text of error messages is not modelled'],
    'lsym': ['the LLVM IR interpreter of lib/lsym is faithful (counterexamples are replayed natively; passing verdicts rest on it)',
             'doubles are exact reals: rounding, overflow to infinity and NaN from rounding are not modelled; tolerances (1e-6 to 1e-12, see the harnesses) absorb them',
             'erfc, exp, ln, powers and trigonometric functions are the exact mathematical functions, known to the solver through algebraic identities, monotonicity and bounds',
             'text of error messages is not modelled']}
def engines(p): return [e for e in ('kani', 'lsym') if p.get(e)]
def explanation(p): return ' '.join(EXPLANATIONS[e] for e in engines(p))
def trust(p):
    out = []
    for e in engines(p): out += [t for t in TRUSTS[e] if t not in out]
    return out
TECH = {'kani': 'bounded symbolic execution of the compiled code decided by SAT (Kani/CBMC), counterexamples replayed natively',
        'lsym': 'symbolic execution of the compiled LLVM IR over the reals decided by SMT (z3), counterexamples replayed natively'}
def technique(p): return '; and '.join(TECH[e] for e in engines(p))
PROPS = {}

def P(id, title, statement, over, text, why, files, mech, observe, how, bounds, kani=(), thorough=(), assumes=(), **kw):
    assert len(title) <= 80, title
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                     how=how, bounds=bounds, kani=list(kani), kani_thorough=list(thorough), assumes=list(assumes), **kw)

CAL = 'src/time/calendars/'
def cal(id, title, statement, files, names, extra='', easter=()):
    P(id, title, statement, ['inputs', 'configurations'],
      'every date from 1901-01-01 to 2199-12-31, for each market named',
      'tests sample a few dozen dates of one or two years per market; the rules involve weekday shifts, leap years, Easter and year cut-offs over three centuries',
      [CAL + f for f in files] + ['src/time/calendars.rs'],
      [('business-day rule of each market', CAL + f) for f in files],
      ['Calendar::is_business_day and is_holiday of each market'],
      'For each market the real business-day function is run on a symbolic date and compared with an independently written table of its '
      'holidays (Easter from the computus, equinoxes from the astronomical formula). ' + extra,
      'all dates 1901-2199, no bound inside the range; dates outside it (where the Easter tables end) are not covered',
      ['cal::cal_' + n for n in names.split()] + ['cal::easter_' + e for e in easter])

cal('C01', 'Easter is computed correctly, Western and Orthodox',
    'For every year from 1901 to 2199 the library\'s Western Easter Monday is the day after Easter Sunday by the Gregorian computus, and its Orthodox Easter Monday is the day after Easter Sunday by the Julian computus converted to the Gregorian calendar.',
    [], '', easter=['western', 'orthodox'])
cal('C02', 'Western European calendars close on exactly their public holidays',
    'For TARGET, Austria, France, Germany, Italy, Switzerland and the United Kingdom, in every market variant offered, a date is a business day exactly when it is neither a weekend nor a holiday of that market: fixed-date, Easter-linked and weekday-linked holidays, substitute days, and one-off closures. The default variant of a country is its settlement calendar, except that Germany\'s default is the Frankfurt exchange.',
    ['target.rs', 'austria.rs', 'france.rs', 'germany.rs', 'italy.rs', 'switzerland.rs', 'unitedkingdom.rs'],
    'target austria_settlement austria_settlement_default austria_exchange france_settlement france_settlement_default france_exchange germany_settlement germany_frankfurt germany_frankfurt_default germany_eurex germany_euwax italy_settlement italy_settlement_default italy_exchange switzerland uk_default uk_settlement uk_exchange uk_metals', easter=['western'])
cal('C03', 'Nordic calendars close on exactly their public holidays',
    'For Denmark, Finland, Iceland, Norway and Sweden a date is a business day exactly when it is neither a weekend nor a holiday of that country (fixed-date, Easter-linked and weekday-linked, such as Midsummer Eve).',
    ['denmark.rs', 'finland.rs', 'iceland.rs', 'norway.rs', 'sweden.rs'], 'denmark finland iceland norway sweden', easter=['western'])
cal('C04', 'Central and Eastern European calendars close on exactly their holidays',
    'For the Czech Republic, Hungary, Poland, Romania, Russia, Slovakia and Ukraine, in every market variant offered, a date is a business day exactly when it is neither a weekend nor a holiday of that market, including the years in which each holiday was in force and Orthodox Easter where it applies.',
    ['czechrepublic.rs', 'hungary.rs', 'poland.rs', 'romania.rs', 'russia.rs', 'slovakia.rs', 'ukraine.rs'],
    'czech hungary poland_settlement poland_settlement_default poland_wse romania russia_settlement russia_settlement_default russia_exchange slovakia ukraine', easter=['western', 'orthodox'])
cal('C05', 'United States calendars close on exactly their market\'s holidays',
    'For each United States market (settlement, Libor impact, NYSE, government bonds, SOFR, NERC and Federal Reserve) a date is a business day exactly when it is neither a weekend nor one of that market\'s holidays: weekend shifts, the years each holiday was introduced, Good Friday rules and one-off closures. The default market is settlement.',
    ['unitedstates.rs'], 'us_settlement us_settlement_default us_libor us_nyse us_govbond us_sofr us_nerc us_fed', easter=['western'])
cal('C06', 'Calendars of the other Americas close on exactly their holidays',
    'For Argentina, Brazil (settlement and exchange), Canada (settlement and Toronto exchange), Chile and Mexico a date is a business day exactly when it is neither a weekend nor a holiday of that market, including shifted and Easter-linked holidays and the years each was in force.',
    ['argentina.rs', 'brazil.rs', 'canada.rs', 'chile.rs', 'mexico.rs'],
    'argentina brazil_settlement brazil_settlement_default brazil_exchange canada_settlement canada_settlement_default canada_tsx chile mexico', easter=['western'])
cal('C07', 'Pacific and Southern African calendars close on exactly their holidays',
    'For Australia (settlement and exchange), New Zealand (Wellington and Auckland), Japan, South Africa and Botswana a date is a business day exactly when it is neither a weekend nor a holiday of that market, including weekend substitution, Easter-linked and weekday-linked holidays and Japan\'s equinox days.',
    ['australia.rs', 'newzealand.rs', 'japan.rs', 'southafrica.rs', 'botswana.rs'],
    'australia_settlement australia_settlement_default australia_asx nz_wellington nz_wellington_default nz_auckland japan southafrica botswana', easter=['western'])
cal('C08', 'Asian table-driven calendars close on exactly their listed holidays',
    'For Singapore, China, Taiwan, India, Indonesia, Turkey, Thailand and South Korea a date is a business day exactly when it is neither a weekend nor one of that market\'s fixed holidays or of the lunar and one-off closures listed for its years; in years with no list only the fixed rules apply.',
    ['singapore.rs', 'china.rs', 'taiwan.rs', 'india.rs', 'indonesia.rs', 'turkey.rs', 'thailand.rs', 'southkorea.rs'],
    'singapore china taiwan india indonesia turkey thailand korea',
    'For lunar and one-off closures the oracle is the list of dates as pinned in harness/src/tables.rs.', easter=['western'])

P('C09', 'A joint calendar is open exactly when all its members are',
  'For any list of calendars, the joint calendar is a business day exactly when every member calendar is, and a holiday otherwise; with no members every day is open. The weekends-only calendar is open exactly on Monday to Friday.',
  ['inputs', 'configurations'], 'every date 1901-2199, zero to three members, every pattern of member holidays',
  'tests combine two fixed calendars on a handful of dates', [CAL + 'weekendsonly.rs', 'src/time/calendars.rs'],
  [('joint calendar', 'src/time/calendars.rs')], ['JointCalendar::is_business_day, is_holiday; WeekendsOnly'],
  'Member calendars are symbolic day patterns; the joint answer is compared with the conjunction.',
  'dates 1902-2190 (joint), 1901-2199 (weekends); up to 3 members', ['laws::joint_is_the_intersection', 'cal::cal_weekends_only'])
P('C10', 'Business-day adjustment follows each roll convention on any calendar',
  'On any calendar, adjusting a date gives: unadjusted, the date itself; following or preceding, the first business day at or after or before it; modified following or preceding, the same unless that leaves the month, then the nearest business day the other way; half-month modified, additionally not crossing from the 15th to the 16th; nearest, the closest business day, the later one on a tie. The result is a business day (except unadjusted), and a business day is left unchanged.',
  ['inputs', 'configurations'], 'every date 1902-2190, every calendar with at most three closed days in a row near the date, every convention',
  'tests check single dates on one calendar for three of the seven conventions', ['src/time/calendars.rs', 'src/time/businessdayconvention.rs'],
  [('adjust', 'src/time/calendars.rs')], ['Calendar::adjust'],
  'The calendar is a symbolic 64-bit open/closed pattern, so the solver ranges over every arrangement of holidays around the date.',
  'dates 1902-2190; closed runs of at most 3 days; pattern repeats every 32 days',
  ['laws::adjust_' + x for x in 'following modified_following half_month preceding modified_preceding unadjusted nearest'.split()])
P('C11', 'Advancing a date by a period honours business days and month ends',
  'On any calendar, advancing by n days lands on the n-th business day after (or before) the date, and by zero days on the adjusted date; advancing by weeks, months or years lands on the adjusted calendar date that many weeks, months or years away (day clipped to the month length). With the end-of-month rule on, a month or year step from the last business day of a month (last calendar day when unadjusted) lands on the last business (calendar) day of the target month, and from any other day it changes nothing.',
  ['inputs', 'configurations'], 'every date 1902-2180, every calendar with closed runs of at most three days, -3 to 3 days, -60 to 60 weeks, 0 to 30 months, 0 to 3 years',
  'tests advance a few fixed dates on TARGET', ['src/time/calendars.rs', 'src/time/period.rs'],
  [('advance', 'src/time/calendars.rs')], ['Calendar::advance'],
  'Symbolic calendar pattern, date, step and end-of-month flag against a counting definition.',
  'as quantified; conventions: following, modified following, preceding, unadjusted',
  ['laws::' + x for x in 'advance_1_day advance_2_days advance_back_1_day advance_back_2_days advance_0_days_following advance_0_days_unadjusted advance_weeks_following advance_weeks_preceding advance_weeks_unadjusted advance_months_following advance_months_modified_following advance_months_unadjusted advance_years_modified_following'.split()],
  ['laws::advance_3_days', 'laws::advance_back_3_days'])
P('C12', 'Business days between two dates are counted exactly',
  'On any calendar, the business days between two dates are the number of business days strictly between them, plus the earlier date if the first is included and open (it is by default), plus the later date if the last is included and open (it is not by default). Swapping the dates changes only the sign, and between a date and itself the count is zero unless both ends are included.',
  ['inputs', 'configurations'], 'every pair of dates up to 3 (thorough: 5) days apart in either order, 1902-2190, every calendar with closed runs of at most three days, every choice of inclusion',
  'tests check two ranges on one calendar with default inclusion', ['src/time/calendars.rs'],
  [('business day count', 'src/time/calendars.rs')], ['Calendar::business_days_between'],
  'Symbolic calendar, date, distance and inclusion flags against a direct count.', 'distance up to 3 days (quick), 5 days (thorough)',
  ['laws::between_forward', 'laws::between_backward'], ['laws::between_forward_longer', 'laws::between_backward_longer'])
P('C13', 'Month ends are the last calendar day and the last business day',
  'On any calendar, the last day of a date\'s month is the last calendar day of that month, leap Februaries included, and the end of the month is the last business day of it.',
  ['inputs', 'configurations'], 'every date 1902-2190, every calendar with closed runs of at most three days',
  'tests check one or two months', ['src/time/calendars.rs'], [('month end', 'src/time/calendars.rs')],
  ['Calendar::last_day_of_month, end_of_month'], 'Symbolic calendar and date against the month-length rule.',
  'as quantified', ['laws::month_ends'])
P('P01', 'Adding or subtracting a period is exact or an error',
  'Adding or subtracting days or weeks moves a date by exactly that many days; months or years keep the day of month, clipped to the target month\'s length; overnight, tom-next and spot-next move by one day, and spot by none. A result that no date can represent is reported as an error, never a panic or a wrapped date, and multiplying a period by n scales its count by n.',
  ['inputs'], 'every date 2000-2100 with shifts up to 770 days, 53 weeks, 1188 months or 99 years (36,000 days in the thorough tier) in either direction, and every amount beyond the representable range',
  'tests use a handful of small periods from fixed dates', ['src/time/period.rs'], [('date plus/minus period', 'src/time/period.rs')],
  ['NaiveDate + Period, NaiveDate - Period, u32 * Period'],
  'Symbolic date and amount (64-bit for days and weeks, 32-bit for months and years) against day numbers and month arithmetic.',
  'as quantified; amounts between the stated ranges and the unrepresentable ones are not covered',
  ['padd::' + x for x in 'add_days sub_days add_weeks sub_weeks add_months sub_months add_years sub_years named_tenors scaling'.split()],
  ['padd::' + x for x in 'add_days_far sub_days_far'.split()] + ['fast::' + x for x in 'lemma_from_yo lemma_from_ymd lemma_fields lemma_shift lemma_months lemma_day_number lemma_num_days'.split()])
P('P02', 'FX settlement and near dates follow the spot convention',
  'On any calendar, the far date of overnight, tom-next and spot-next is the first business day at or after one day, two days and spot lag plus one day from the valuation date; spot, day and week tenors settle on the first business day at or after the spot lag plus the tenor; month and year tenors add the tenor to the unadjusted spot date, roll following and never leave the target month, settling on its last business day instead. The near date of overnight, tom-next and spot-next is the first business day at or after the valuation date, one day later and the spot lag later, other tenors have none, and no near date falls after its far date.',
  ['inputs', 'configurations'], 'every valuation date 1902-2150, every calendar with closed runs of at most three days, lags of one and two days, up to 40 days, 56 weeks, 120 months, 40 years',
  'tests check a few tenors from one or two dates', ['src/time/period.rs', 'src/derivatives/forex/basic.rs'],
  [('settlement date with lag', 'src/time/period.rs'), ('near date with lag', 'src/time/period.rs')],
  ['Period::settlement_date, near_date'], 'Symbolic calendar, date and tenor against the documented table of base dates.', 'as quantified',
  ['per::' + x for x in 'far_on far_tn far_sn far_spot far_days far_weeks far_month_tenors far_year_tenors far_spot_lag1 far_sn_lag1 far_month_tenors_lag1 near_dates near_dates_lag1 near_not_after_far'.split()])
P('D01', 'Actual day counters count calendar days over their fixed basis',
  'Actual/360, /364, /365 and /366 and Actual/Actual count the signed calendar days between two dates; the no-leap Actual/365 counts them as if every year had 365 days, 29 February coinciding with 28 February. The year fraction of each fixed-basis counter is its day count divided by 360, 364, 365 or 366.',
  ['inputs'], 'every pair of dates 1902-2190 for day counts; every pair up to 800 days apart starting 1999-2004 for year fractions',
  'tests check one to three date pairs per counter', ['src/time/daycounters/' + f for f in ('actual360.rs', 'actual364.rs', 'actual365fixed.rs', 'actual366.rs', 'actualactual.rs')],
  [('day_count and year_fraction of each counter', 'src/time/daycounters/')], ['DayCounters::day_count, year_fraction'],
  'Symbolic date pairs; floating-point division is bit-precise.', 'as quantified',
  ['dc::' + x for x in 'act360_count act364_count act365_count act366_count actact_count noleap_count act360_fraction act364_fraction act365_fraction act366_fraction noleap_fraction'.split()])
P('D02', 'Actual/Actual (ISDA) splits days between leap and common years',
  'The Actual/Actual ISDA year fraction is the days falling in common years over 365 plus the days falling in leap years over 366; reversing the dates changes its sign, equal dates give zero, and ISDA is the default variant.',
  ['inputs'], 'every pair of dates within four days of New Year, in the same year, one year apart (from and into a leap year and the common century year 2100) and three years apart, either order',
  'tests check two date pairs', ['src/time/daycounters/actualactual.rs'], [('ISDA year fraction', 'src/time/daycounters/actualactual.rs')],
  ['ActualActual::year_fraction'], 'Bit-precise doubles, compared within 1e-9.', 'as quantified: date windows of 8 days around New Year of 1999-2002 and 2099-2101',
  ['dc::isda_' + x for x in 'leap_to_next into_leap three_years into_century from_century same_year reversed'.split()])
P('D03', 'Actual/Actual (Euro) counts whole years back and an exact stub',
  'The Actual/Actual Euro (AFB) year fraction is the number of whole years counted back from the later date (a February end stays a February end) plus the remaining days over 366 if they include a 29 February and over 365 otherwise; reversing the dates changes its sign.',
  ['inputs'], 'every pair of dates within two days of 1 March, zero to one (thorough: two) years apart, from and into a leap year, either order',
  'tests check two date pairs', ['src/time/daycounters/actualactual.rs'], [('Euro year fraction', 'src/time/daycounters/actualactual.rs')],
  ['ActualActual::year_fraction'], 'Bit-precise doubles, compared within 1e-9.', 'as quantified: date windows around 1 March of 1999-2001 and 2099-2100',
  ['dc::euro_' + x for x in 'within_a_year from_leap into_leap century from_leap_reversed'.split()], ['dc::euro_two_years'])
P('D04', '30/360 variants and 30/365 follow their month-end rules',
  'Each 30/360 variant (USA, European, Italian, ISMA, ISDA and German with a maturity date, NASD) and 30/365 counts 360 days per year and 30 per month between two dates, adjusting the two days of month exactly as its convention prescribes for the 31st and for February ends (the maturity date exempts a February end in ISDA and German). Their year fractions are the count over 360 and 365.',
  ['inputs'], 'every pair of dates 1902-2190 (and every maturity date) for day counts; pairs up to 800 days apart for year fractions',
  'tests check a dozen date pairs for some variants', ['src/time/daycounters/thirty360.rs', 'src/time/daycounters/thirty365.rs'],
  [('day counts per market', 'src/time/daycounters/thirty360.rs')], ['Thirty360::day_count, year_fraction; Thirty365'],
  'Symbolic date pairs against an independent statement of each convention.', 'as quantified; fractions for USA and 30/365',
  ['dc::' + x for x in 'thirty360_usa_count thirty360_european_count thirty360_italian_count thirty360_isma_count thirty360_nasd_count thirty360_isda_count thirty360_german_count thirty365_count thirty360_usa_fraction thirty365_fraction'.split()])
P('D05', 'Business/252 counts business days over 252',
  'The Business/252 day count is the number of business days of its calendar from the first date (included) to the second (excluded), negative when the dates are reversed, and its year fraction is that count over 252, whether or not the dates share a month.',
  ['inputs', 'configurations'], 'every pair of dates 1902-2190 up to 70 days apart in either order, and every calendar (by additivity over its days)',
  'tests never construct it: its calendar can only come from deserialisation', ['src/time/daycounters/business252.rs', 'src/time/calendars.rs'],
  [('day_count by months', 'src/time/daycounters/business252.rs')], ['Business252::day_count, year_fraction'],
  'The calendar has one symbolic business day: counts are additive over days, so this covers every calendar.', 'up to 70 days apart',
  ['dc::business252_count', 'dc::business252_count_reversed', 'dc::business252_fraction'])
P('I01', 'IMM dates are the third Wednesdays of their cycle months',
  'A date is an IMM date exactly when it is the third Wednesday of its month (of March, June, September or December in the main cycle), and the next IMM date after any date is the earliest IMM date strictly later than it.',
  ['inputs'], 'every date 1902-2190, main cycle and serial months', 'tests check a handful of dates', ['src/time/imm.rs'],
  [('is_imm_date, next_date', 'src/time/imm.rs')], ['IMM::is_imm_date, next_date'], 'Symbolic date against a direct third-Wednesday rule.', 'as quantified',
  ['imm::imm_next_main', 'imm::imm_next_serial', 'imm::imm_is_date'])
P('I02', 'IMM codes are recognised, produced and resolved correctly',
  'A two-character string is an IMM code exactly when it is a month letter of the cycle (either case) followed by a digit; an IMM date\'s code is its month letter and last digit of the year, other dates have none; and a code resolves to the first IMM date of that month, in a year ending in that digit, on or after the reference date, in the reference decade or the next.',
  ['inputs'], 'every two-character ASCII string, every date and reference date 2000-2060, every valid code in either case',
  'tests check a few codes from fixed dates', ['src/time/imm.rs'], [('is_imm_code, code, date', 'src/time/imm.rs')],
  ['IMM::is_imm_code, code, date'], 'Symbolic strings and dates.', 'as quantified; longer and non-ASCII strings are not covered',
  ['imm::imm_code_check', 'imm::imm_code_of_date', 'imm::imm_date_of_code'],
  assumes=['str::contains for a char is replaced by a byte comparison under the solver', 'the system clock, read but unused when a reference date is given, is fixed'])

# ---- floating-point code, decided by lib/lsym ----
P('Y01', 'The yield curve interpolates, discounts, shifts and compounds consistently',
  'Between pillars the zero rate is linear in days from one visible pillar to the next (read for the following day) and flat beyond the first and last; hidden pillars take no part; the discount factor is exp(-z t), is 1 at the valuation date and positive; a shifted discount factor is that of the curve with every pillar bumped; and the forward rate links the two discount factors it spans.',
  ['inputs', 'configurations'], 'any zero rates in [-5%, 20%] (shift up to 300bp), 1 to 4 pillars, each hidden or not, every queried day around them',
  'tests check a handful of dates of one or two curves', ['src/markets/termstructures/yieldcurve.rs'],
  [('zero_rate, discount, shifted_discount, forward_rate', 'src/markets/termstructures/yieldcurve.rs')], ['YieldTermStructure::zero_rate, discount, shifted_discount, forward_rate'],
  'Pillar rates and shifts are real variables; days, pillar counts and hidden flags are enumerated by forking; the oracle is direct linear interpolation.',
  'pillars at days 10, 40, 95, 400; days 0-104 and 388-412; forward periods of 1-4 weeks from days 0-60; PiecewiseLinearContinuous interpolation',
  lsym=['curve_zero_rate', 'curve_zero_rate_bounds', 'curve_hidden', 'curve_discount:1', 'curve_shifted', 'curve_forward'])
P('Y02', 'Stripping deposits, futures and swaps reproduces their quotes',
  'A deposit settles after its spot lag and matures a tenor later on the index calendar, and growing at its zero rate returns principal and simple interest; a future discounts at simple interest over its IMM period with the convexity adjustment; the stripped curve lists deposits by maturity with each quote\'s own rate, zero rate, discount and source, one-week deposits hidden; and the pillar solved for a swap reprices the swap to zero.',
  ['inputs', 'configurations'], 'any deposit rate in [-5%, 30%], futures price in [80, 105], swap coupon and spread, for each tenor, IMM code and order of quotes listed',
  'tests compare one market snapshot with stored numbers', ['src/markets/termstructures/yieldcurve.rs', 'src/markets/termstructures/yieldcurve/oisratehelper.rs', 'src/markets/termstructures/yieldcurve/ratehelper.rs', 'src/derivatives/interestrate/swap.rs'],
  [('deposits', 'src/markets/termstructures/yieldcurve/oisratehelper.rs'), ('futures', 'src/markets/termstructures/yieldcurve/ratehelper.rs'), ('swap zero rate', 'src/derivatives/interestrate/swap.rs')],
  ['OISRate::zero_rate, discount', 'FuturesRate::discount, zero_rate', 'YieldTermMarketData::get_stripped_curve'],
  'Quotes are real variables. For the swap, the root finder of the roots crate is replaced by its specification: any point in the bracket whose value its convergence test accepts.',
  'valuation dates 8-14 January 2024; tenors 1W-1Y; four quarterly IMM codes; a two-period swap',
  assumes=['the root finder returns a point its convergence test accepts as a root (that one is found is not claimed)'],
  lsym=['deposit', 'strip_deposits', 'futures', 'swap_pillar'])
P('N01', 'Closed-form option prices satisfy parity and their formulas',
  'The normal distribution function is symmetric, monotone, within [0, 1] and matches its density\'s integral form; Black-Scholes and Bachelier calls and puts equal their closed forms, satisfy put-call parity, collapse to discounted intrinsic value at zero variance or expiry, agree between the two Black-Scholes implementations, and the Bachelier variance vega is the analytic derivative; caplet total variance is that of its accrual style and never negative.',
  ['inputs'], 'every forward and strike in [0.01, 300] (Bachelier [-50%, 50%]), volatility, expiry and discount in wide ranges including zero and negative',
  'tests check a few points', ['src/math/normal.rs', 'src/models/common/black_scholes.rs', 'src/models/common/bachelier.rs', 'src/derivatives/forex/option.rs', 'src/derivatives/interestrate/basic.rs'],
  [('closed forms', 'src/models/common/black_scholes.rs'), ('normal model', 'src/models/common/bachelier.rs'), ('caplet variance', 'src/derivatives/interestrate/basic.rs')],
  ['bs_call_forward, bs_put_forward', 'bachelier_call, bachelier_put, bachelier_vega_variance', 'black_scholes', 'caplet_total_variance'],
  'All inputs are real variables.', 'the input ranges quantified', lsym=['normal_symmetry:1', 'black_parity', 'black_formula:2', 'black_deal_formula:2', 'bachelier_parity:2', 'caplet_variance:3'])
P('O01', 'Nelder-Mead reports the best point it evaluated',
  'Whatever the objective, the optimiser first evaluates its starting point, stops within its iteration limit, reports a point it evaluated with the objective\'s value there, and no point it evaluated was better.',
  ['inputs', 'histories'], 'every objective function (an arbitrary value in [-10, 10] for each point asked)', 'tests minimise two smooth functions', ['src/math/optimize.rs'],
  [('simplex steps', 'src/math/optimize.rs')], ['nelder_mead'], 'The objective is an uninterpreted oracle: each new point gets a fresh real variable, so every course of the simplex is explored.',
  'one dimension, 3 iterations; thorough: two dimensions, 2 iterations', lsym=['simplex_one'], lsym_thorough=['simplex_two'])
P('F01', 'FX forward points and forwards price consistently for every pair',
  'Forward points are exact on a quote\'s settlement date, linear in days between quotes whatever their order, and absent outside them or with fewer than two quotes; the outright forward is spot plus points over the pair\'s pip scale (100 for yen quotes, else 10000); a forward is worth its signed base amount times (forward - strike) discounted on the domestic curve, in domestic currency, with delta the signed base amount and no gamma or vega; where there is no forward, valuation fails.',
  ['inputs', 'configurations'], 'every spot, points, strike, notional and rate in wide ranges; every currency pair offered; either direction and notional currency',
  'tests use one pair and a few numbers', ['src/markets/forex/quotes/forwardpoints.rs', 'src/derivatives/forex/forward.rs', 'src/markets/forex/market_context.rs', 'src/derivatives/forex/basic.rs'],
  [('points interpolation', 'src/markets/forex/quotes/forwardpoints.rs'), ('valuation', 'src/derivatives/forex/forward.rs')], ['FXForwardHelper::get_forward', 'FXForward::mtm, delta, gamma, vega', 'FxMarketContext::forward_at'],
  'Market data and deal terms are real variables; pairs, dates and flags are enumerated by forking.', 'valued on 8 January 2024, two quotes (1W, 3M; up to 4 for the points), deal dates before, on, between and after them; all 60 pairs at one date and three pairs at 16',
  lsym=['fx_points:2', 'fx_forward_pairs', 'fx_forward_days:2'])
P('F02', 'FX vanilla options are worth their Garman-Kohlhagen price and Greeks',
  'A vanilla option\'s value is its closed-form premium on the forward and the domestic discount factor, scaled by its notional and signed by its direction, in its notional currency; vega is its closed form per volatility point and, for base-currency notionals, delta and gamma theirs; where there is no forward, all fail.',
  ['inputs', 'configurations'], 'every spot, points, strike, notional, volatility and rate in wide ranges, calls and puts, either direction and notional currency',
  'tests check a few deals', ['src/derivatives/forex/option.rs', 'src/markets/forex/market_context.rs'], [('valuation and Greeks', 'src/derivatives/forex/option.rs')],
  ['FXVanillaOption::mtm, delta, gamma, vega'], 'Market data and deal terms are real variables.', 'EURUSD, USDJPY, GBPUSD, EURJPY; five expiries; delta and gamma of domestic-currency notionals are not claimed',
  lsym=['fx_option_call:2', 'fx_option_put:2'])
P('S01', 'Interest-rate swaps value, schedule and bump consistently',
  'A swap is worth the signed sum of its coupons (fixed, or the projected floating rate plus spread) and final balances discounted on their pay dates; dv01 and gamma are exact revaluations under parallel zero-rate bumps, unsupported bump modes fail, vega is zero and modified duration is -dv01 over value; generated schedules start at the effective date, are contiguous, end a whole number of periods on, and pay and reset with their lags; maturity is the latest accrual end.',
  ['inputs', 'configurations'], 'any curve, coupon, spread and balances in wide ranges; fixed/float leg combinations; each frequency, tenor, lag and start listed',
  'tests compare a few swaps with stored numbers', ['src/derivatives/interestrate/swap.rs'], [('npv, schedule, risk', 'src/derivatives/interestrate/swap.rs')],
  ['InterestRateSwap::mtm, npv, dv01, gamma, modified_duration', 'InterestRateSwapLeg::generate_schedule'], 'Market data, coupons and balances are real variables; the oracle revalues on a curve whose pillars are bumped.',
  'up to two legs of three periods; schedules of 1-2 years from 8-14 January 2024 at four frequencies', lsym=['swap_value', 'swap_rate_risk', 'swap_duration:2', 'swap_schedule'])
P('S02', 'Caps and floors are worth their normal-model caplets and bump consistently',
  'A cap or floor is worth the signed sum of notional, accrual, discount and Bachelier price of its caplets, with the forward from the curve, the volatility from the surface at the accrual start and the variance of its style; dv01, gamma and vega are exact revaluations under parallel bumps; unsupported bump modes and a missing volatility surface fail.',
  ['inputs', 'configurations'], 'any curve, volatilities, strike and notional in wide ranges; caps and floors, either style and direction; caplets ahead, under way and in a strip',
  'tests compare one reference cap', ['src/derivatives/interestrate/cap.rs', 'src/models/common/bachelier.rs'], [('caplet strip', 'src/derivatives/interestrate/cap.rs')],
  ['CapFloor::mtm, dv01, gamma, vega'], 'Market data and terms are real variables.', 'one or two caplets; a two-pillar curve and surface', lsym=['caplet_value', 'cap_rate_risk', 'cap_vol_risk'])
P('V01', 'The caplet volatility surface interpolates and reprices its cap quotes',
  'Caplet volatility is taken from the first pillar on or after the expiry (else the last), linear in strike between nodes and flat outside; an empty surface fails; stripping caps reprices every quoted cap, whatever the order of the quotes, and lists in each expiry\'s pillar the strikes quoted so far in order.',
  ['inputs', 'configurations'], 'any node strikes, volatilities and cap premiums in wide ranges; 1-3 pillars of 1-3 nodes; quotes in either order',
  'tests strip one or two surfaces', ['src/markets/interestrate/volsurface.rs'], [('lookup', 'src/markets/interestrate/volsurface.rs'), ('bootstrap', 'src/markets/interestrate/volsurface.rs')],
  ['IRNormalVolSurface::caplet_volatility, rebuild'], 'Premiums, volatilities and strikes are real variables; the root finder of the roots crate is replaced by its specification.',
  'two quotes of 1-3 caplets on one fixed curve', assumes=['the root finder returns a point its convergence test accepts as a root (that one is found is not claimed)'],
  lsym=['caplet_vol_lookup', 'cap_stripping', 'cap_stripping_strikes'])

HOOK_COMMITS = ['6c5104754603bf1dadcce90526fe4bfc64021e4f']
def N(id, title, statement, files, why, reason, over=('inputs',), text='every input'):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=[], observe=[], reason=reason)
NOT_APPLICABLE = [
    N('X01', 'Hong Kong and Israeli calendars close on their listed holidays',
      'For Hong Kong and Israel a date is a business day exactly when it is neither a weekend nor one of the market\'s listed or rule-based holidays.',
      ['src/time/calendars/hongkong.rs', 'src/time/calendars/israel.rs'], 'tests check one or two years',
      'both calendars look dates up in lazily built hash sets of hundreds of dates; hashing (SipHash with a random key, SIMD probing) over a symbolic date is out of reach of the solver'),
    N('X02', 'Simulated prices converge to the analytic prices of each model',
      'For every admissible parameter set the Monte Carlo price of a claim converges, as paths and steps grow, to the model\'s characteristic-function or closed-form price.',
      ['src/models/forex/', 'src/models/interestrate/'], 'tests compare a few parameter sets within loose tolerances',
      'a statistical limit over random draws and transcendental functions; no solver decides it, and bounded symbolic execution of thousands of floating-point steps is out of reach'),
    N('X03', 'Calibrations recover the parameters that generated the quotes',
      'When market quotes are generated by a model within the calibrator\'s parameter bounds, calibration reprices every quote within its tolerance.',
      ['src/models/forex/', 'src/models/common/calibration.rs'], 'tests calibrate to one or two quote sets',
      'convergence of iterative optimisation over transcendental objective functions is not expressible within any unrolling bound the solver can handle'),
    N('X04', 'The Fourier-cosine pricer converges to the exact option price',
      'For every admissible characteristic function, the cosine-expansion price converges to the option price as the number of terms grows.',
      ['src/models/common/cos_pricer.rs'], 'tests compare a few prices', 'needs complex transcendental arithmetic and a limit; outside SMT theories and bounded unrolling'),
]
