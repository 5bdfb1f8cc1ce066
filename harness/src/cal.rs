//! Holiday calendars against the published rules, every date 1901-2199.
use crate::spec::{self, D};
use crate::{harnesses_fast, reach, sym};
use finquant::time::calendars::*;

fn against(c: &dyn Calendar, rules: fn(&D) -> bool) {
    let date = sym::date(1901, 2199);
    let x = D::new(date);
    let open = c.is_business_day(date);
    let holiday = rules(&x);
    crate::show!("business day {open}, by the rules {}", !holiday);
    reach!(open);
    reach!(!open && !x.we());
    assert!(open == !holiday);
    assert!(c.is_holiday(date) == !open);
}

harnesses_fast! {
    fn cal_target [2] { against(&Target, spec::target) }
    fn cal_austria_settlement [2] { against(&Austria { market: Some(austria::AustriaMarket::Settlement) }, spec::austria_settlement) }
    fn cal_austria_settlement_default [2] { against(&Austria { market: None }, spec::austria_settlement) }
    fn cal_austria_exchange [2] { against(&Austria { market: Some(austria::AustriaMarket::Exchange) }, spec::austria_exchange) }
    fn cal_france_settlement [2] { against(&France { market: Some(france::FranceMarket::Settlement) }, spec::france_settlement) }
    fn cal_france_settlement_default [2] { against(&France { market: None }, spec::france_settlement) }
    fn cal_france_exchange [2] { against(&France { market: Some(france::FranceMarket::Exchange) }, spec::france_exchange) }
    fn cal_germany_settlement [2] { against(&Germany { market: Some(germany::GermanyMarket::Settlement) }, spec::germany_settlement) }
    fn cal_germany_frankfurt [2] { against(&Germany { market: Some(germany::GermanyMarket::FrankfurtStockExchange) }, spec::germany_frankfurt) }
    fn cal_germany_frankfurt_default [2] { against(&Germany { market: None }, spec::germany_frankfurt) }
    fn cal_germany_eurex [2] { against(&Germany { market: Some(germany::GermanyMarket::Eurex) }, spec::germany_eurex) }
    fn cal_germany_euwax [2] { against(&Germany { market: Some(germany::GermanyMarket::Euwax) }, spec::germany_euwax) }
    fn cal_italy_settlement [2] { against(&Italy { market: Some(italy::ItalyMarket::Settlement) }, spec::italy_settlement) }
    fn cal_italy_settlement_default [2] { against(&Italy { market: None }, spec::italy_settlement) }
    fn cal_italy_exchange [2] { against(&Italy { market: Some(italy::ItalyMarket::Exchange) }, spec::italy_exchange) }
    fn cal_switzerland [2] { against(&Switzerland, spec::switzerland) }
    fn cal_uk_default [2] { against(&UnitedKingdom { market: None }, spec::uk) }
    fn cal_uk_settlement [2] { against(&UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Settlement) }, spec::uk) }
    fn cal_uk_exchange [2] { against(&UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Exchange) }, spec::uk) }
    fn cal_uk_metals [2] { against(&UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Metals) }, spec::uk) }

    fn cal_denmark [2] { against(&Denmark, spec::denmark) }
    fn cal_finland [2] { against(&Finland, spec::finland) }
    fn cal_iceland [2] { against(&Iceland, spec::iceland) }
    fn cal_norway [2] { against(&Norway, spec::norway) }
    fn cal_sweden [2] { against(&Sweden, spec::sweden) }

    fn cal_czech [2] { against(&CzechRepublic, spec::czech) }
    fn cal_hungary [2] { against(&Hungary, spec::hungary) }
    fn cal_poland_settlement [2] { against(&Poland { market: Some(poland::PolandMarket::Settlement) }, spec::poland_settlement) }
    fn cal_poland_settlement_default [2] { against(&Poland { market: None }, spec::poland_settlement) }
    fn cal_poland_wse [2] { against(&Poland { market: Some(poland::PolandMarket::WSE) }, spec::poland_wse) }
    fn cal_romania [2] { against(&Romania, spec::romania) }
    fn cal_russia_settlement [2] { against(&Russia { market: Some(russia::RussiaMarket::Settlement) }, spec::russia_settlement) }
    fn cal_russia_settlement_default [2] { against(&Russia { market: None }, spec::russia_settlement) }
    fn cal_russia_exchange [2] { against(&Russia { market: Some(russia::RussiaMarket::Exchange) }, spec::russia_exchange) }
    fn cal_slovakia [2] { against(&Slovakia, spec::slovakia) }
    fn cal_ukraine [2] { against(&Ukraine, spec::ukraine) }

    fn cal_us_settlement [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::Settlement) }, spec::us_settlement) }
    fn cal_us_settlement_default [2] { against(&UnitedStates { market: None }, spec::us_settlement) }
    fn cal_us_libor [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::Libor) }, spec::us_libor) }
    fn cal_us_nyse [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::NYSE) }, spec::us_nyse) }
    fn cal_us_govbond [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::GovernmentBond) }, spec::us_govbond) }
    fn cal_us_sofr [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::SOFR) }, spec::us_sofr) }
    fn cal_us_nerc [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::NERC) }, spec::us_nerc) }
    fn cal_us_fed [2] { against(&UnitedStates { market: Some(unitedstates::UnitedStatesMarket::FederalReserve) }, spec::us_fed) }

    fn cal_argentina [2] { against(&Argentina, spec::argentina) }
    fn cal_brazil_settlement [2] { against(&Brazil { market: Some(brazil::BrazilMarket::Settlement) }, spec::brazil_settlement) }
    fn cal_brazil_settlement_default [2] { against(&Brazil { market: None }, spec::brazil_settlement) }
    fn cal_brazil_exchange [2] { against(&Brazil { market: Some(brazil::BrazilMarket::Exchange) }, spec::brazil_exchange) }
    fn cal_canada_settlement [2] { against(&Canada { market: Some(canada::CanadaMarket::Settlement) }, spec::canada_settlement) }
    fn cal_canada_settlement_default [2] { against(&Canada { market: None }, spec::canada_settlement) }
    fn cal_canada_tsx [2] { against(&Canada { market: Some(canada::CanadaMarket::TSX) }, spec::canada_tsx) }
    fn cal_chile [2] { against(&Chile, spec::chile) }
    fn cal_mexico [2] { against(&Mexico, spec::mexico) }

    fn cal_australia_settlement [2] { against(&Australia { market: Some(australia::AustraliaMarket::Settlement) }, spec::australia_settlement) }
    fn cal_australia_settlement_default [2] { against(&Australia { market: None }, spec::australia_settlement) }
    fn cal_australia_asx [2] { against(&Australia { market: Some(australia::AustraliaMarket::ASX) }, spec::australia_asx) }
    fn cal_nz_wellington [2] { against(&NewZealand { market: Some(newzealand::NewZealandMarket::Wellington) }, spec::nz_wellington) }
    fn cal_nz_wellington_default [2] { against(&NewZealand { market: None }, spec::nz_wellington) }
    fn cal_nz_auckland [2] { against(&NewZealand { market: Some(newzealand::NewZealandMarket::Auckland) }, spec::nz_auckland) }
    fn cal_japan [2] { against(&Japan, spec::japan) }
    fn cal_southafrica [2] { against(&SouthAfrica, spec::southafrica) }
    fn cal_botswana [2] { against(&Botswana, spec::botswana) }

    fn cal_singapore [2] { against(&Singapore, spec::singapore) }
    fn cal_china [2] { against(&China, spec::china) }
    fn cal_taiwan [2] { against(&Taiwan, spec::taiwan) }
    fn cal_india [2] { against(&India, spec::india) }
    fn cal_indonesia [2] { against(&Indonesia, spec::indonesia) }
    fn cal_turkey [2] { against(&Turkey, spec::turkey) }
    fn cal_thailand [2] { against(&Thailand, spec::thailand) }
    fn cal_korea [2] { against(&SouthKorea, spec::korea) }
    fn cal_weekends_only [2] {
        let date = sym::date(1901, 2199);
        let we = D::new(date).we();
        reach!(we);
        reach!(!we);
        assert!(WeekendsOnly.is_business_day(date) == !we);
        assert!(WeekendsOnly.is_holiday(date) == we);
    }

    /// Easter Monday, Western and Orthodox, as day of year, against the computus.
    fn easter_western [2] {
        let y = sym::i32_in(1901, 2199);
        reach!(y == 2000);
        let want = spec::march0(y) + spec::easter_sunday_march(y) + 1;
        assert!(Target.easter_monday(y) as i32 == want);
    }
    fn easter_orthodox [2] {
        let y = sym::i32_in(1901, 2199);
        reach!(y == 2000);
        let want = spec::march0(y) + spec::orthodox_sunday_march(y) + 1;
        assert!(Target.orthodox_easter_monday(y) as i32 == want);
    }
}
