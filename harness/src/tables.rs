// Ad-hoc holidays announced year by year (yyyymmdd), beyond the standing rules.
pub fn singapore(x: &D) -> bool {
    singapore_rules(x) || match x.y {
        2004 => matches!(x.k, 20040122..=20040123 | 20040202 | 20040602 | 20041111 | 20041115),
        2005 => matches!(x.k, 20050121 | 20050209..=20050210 | 20051101 | 20051103),
        2006 => matches!(x.k, 20060110 | 20060130..=20060131 | 20060512 | 20061024),
        2007 => matches!(x.k, 20070102 | 20070219..=20070220 | 20070531 | 20071108 | 20071220),
        2008 => matches!(x.k, 20080207..=20080208 | 20081001 | 20081028 | 20081208),
        2009 => matches!(x.k, 20090126..=20090127 | 20090921 | 20091116 | 20091127),
        2010 => matches!(x.k, 20100115 | 20100528 | 20100910 | 20101105 | 20101117),
        2012 => matches!(x.k, 20120123..=20120124 | 20120820 | 20121026 | 20121113),
        2013 => matches!(x.k, 20130211..=20130212 | 20130524 | 20130808 | 20131015),
        2014 => matches!(x.k, 20140131 | 20140513 | 20140728 | 20141006 | 20141023),
        2019 => matches!(x.k, 20190205..=20190206 | 20190520 | 20190605 | 20190812 | 20191028),
        2020 => matches!(x.k, 20200127 | 20200507 | 20200525 | 20200731),
        2021 => matches!(x.k, 20210212 | 20210513 | 20210526 | 20210720 | 20211104),
        2022 => matches!(x.k, 20220201..=20220202 | 20220502..=20220503 | 20220516 | 20220711 | 20221024 | 20221226),
        2023 => matches!(x.k, 20230123..=20230124 | 20230602 | 20230629 | 20230901 | 20231113),
        2024 => matches!(x.k, 20240212 | 20240410 | 20240522 | 20240617 | 20241031),
        2025 => matches!(x.k, 20250129..=20250130 | 20250331 | 20250512 | 20251020),
        2026 => matches!(x.k, 20260217..=20260218 | 20260320 | 20260527 | 20260601 | 20261109),
        _ => false,
    }
}
pub fn china(x: &D) -> bool {
    china_rules(x) || match x.y {
        2004 => matches!(x.k, 20040119..=20040123 | 20040126..=20040128),
        2005 => matches!(x.k, 20050103 | 20050207..=20050211 | 20050214..=20050215),
        2006 => matches!(x.k, 20060102..=20060103 | 20060126..=20060127 | 20060130..=20060131 | 20060201..=20060203),
        2007 => matches!(x.k, 20070102..=20070103 | 20070219..=20070223 | 20071231),
        2008 => matches!(x.k, 20080206..=20080208 | 20080211..=20080212 | 20080501..=20080502 | 20080929..=20080930 | 20081001..=20081003),
        2009 => matches!(x.k, 20090102 | 20090126..=20090130 | 20090406 | 20090501 | 20090528..=20090529 | 20091001..=20091002 | 20091005..=20091008),
        2010 => matches!(x.k, 20100215..=20100219 | 20100405 | 20100503 | 20100614..=20100616 | 20100922..=20100924 | 20101001 | 20101004..=20101007),
        2011 => matches!(x.k, 20110103 | 20110202..=20110204 | 20110207..=20110208 | 20110404..=20110405 | 20110502 | 20110606 | 20110912 | 20111003..=20111007),
        2012 => matches!(x.k, 20120102..=20120103 | 20120123..=20120127 | 20120402..=20120404 | 20120430 | 20120501 | 20120622 | 20121001..=20121005),
        2013 => matches!(x.k, 20130102..=20130103 | 20130211..=20130215 | 20130404..=20130405 | 20130429..=20130430 | 20130501 | 20130610..=20130612 | 20130919..=20130920 | 20131001..=20131004 | 20131007),
        2014 => matches!(x.k, 20140131 | 20140203..=20140206 | 20140407 | 20140501..=20140502 | 20140602 | 20140908 | 20141001..=20141003 | 20141006..=20141007),
        2015 => matches!(x.k, 20150102 | 20150218..=20150220 | 20150223..=20150224 | 20150406 | 20150501 | 20150622 | 20150903..=20150904 | 20151001..=20151002 | 20151005..=20151007),
        2016 => matches!(x.k, 20160208..=20160212 | 20160404 | 20160502 | 20160609..=20160610 | 20160915..=20160916 | 20161003..=20161007),
        2017 => matches!(x.k, 20170102 | 20170127 | 20170130..=20170131 | 20170201..=20170202 | 20170403..=20170404 | 20170501 | 20170529..=20170530 | 20171002..=20171006),
        2018 => matches!(x.k, 20180215..=20180216 | 20180219..=20180221 | 20180405..=20180406 | 20180430 | 20180501 | 20180618 | 20180924 | 20181001..=20181005 | 20181231),
        2019 => matches!(x.k, 20190204..=20190208 | 20190405 | 20190501..=20190503 | 20190607 | 20190913 | 20191001..=20191004 | 20191007),
        2020 => matches!(x.k, 20200124 | 20200127..=20200131 | 20200406 | 20200501 | 20200504..=20200505 | 20200625..=20200626 | 20201001..=20201002 | 20201005..=20201008),
        2021 => matches!(x.k, 20210211..=20210212 | 20210215..=20210217 | 20210405 | 20210503..=20210505 | 20210614 | 20210920..=20210921 | 20211001 | 20211004..=20211007),
        2022 => matches!(x.k, 20220103 | 20220131 | 20220201..=20220204 | 20220404..=20220405 | 20220502..=20220504 | 20220603 | 20220912 | 20221003..=20221007),
        2023 => matches!(x.k, 20230102 | 20230123..=20230127 | 20230405 | 20230501..=20230503 | 20230622..=20230623 | 20230929 | 20231002..=20231006),
        2024 => matches!(x.k, 20240209 | 20240212..=20240216 | 20240404..=20240405 | 20240501..=20240503 | 20240610 | 20240916..=20240917 | 20241001..=20241004 | 20241007),
        2025 => matches!(x.k, 20250128..=20250131 | 20250203..=20250204 | 20250404 | 20250501..=20250502 | 20250505 | 20250602 | 20251001..=20251003 | 20251006..=20251008),
        2026 => matches!(x.k, 20260102 | 20260216..=20260220 | 20260223 | 20260406 | 20260501 | 20260504..=20260505 | 20260619 | 20260925 | 20261001..=20261002 | 20261005..=20261007),
        _ => false,
    }
}
pub fn taiwan(x: &D) -> bool {
    taiwan_rules(x) || match x.y {
        2002 => matches!(x.k, 20020211..=20020215),
        2003 => matches!(x.k, 20030131 | 20030203..=20030205 | 20030604 | 20030911),
        2004 => matches!(x.k, 20040121..=20040123 | 20040126 | 20040622 | 20040928),
        2005 => matches!(x.k, 20050207..=20050211 | 20050502),
        2006 => matches!(x.k, 20060130..=20060131 | 20060201..=20060203 | 20060531 | 20061006),
        2007 => matches!(x.k, 20070219..=20070223 | 20070406 | 20070618..=20070619 | 20070924..=20070925),
        2008 => matches!(x.k, 20080204..=20080208 | 20080211 | 20080404),
        2009 => matches!(x.k, 20090102 | 20090126..=20090130 | 20090528..=20090529),
        2010 => matches!(x.k, 20100113..=20100115 | 20100118..=20100121 | 20100922),
        2011 => matches!(x.k, 20110202..=20110204 | 20110207 | 20110404 | 20110502 | 20110606 | 20110912),
        2012 => matches!(x.k, 20120123..=20120127 | 20120227 | 20120404 | 20121231),
        2013 => matches!(x.k, 20130211..=20130215 | 20130404 | 20130612 | 20130919..=20130920),
        2014 => matches!(x.k, 20140128..=20140131 | 20140203..=20140204 | 20140404 | 20140602 | 20140908),
        2015 => matches!(x.k, 20150102 | 20150218..=20150220 | 20150223 | 20150227 | 20150403 | 20150406 | 20150619 | 20150928 | 20151009),
        2016 => matches!(x.k, 20160208..=20160212 | 20160229 | 20160404 | 20160502 | 20160609..=20160610 | 20160915..=20160916),
        2017 => matches!(x.k, 20170102 | 20170127 | 20170130..=20170131 | 20170201 | 20170227 | 20170403..=20170404 | 20170529..=20170530 | 20171004 | 20171009),
        2018 => matches!(x.k, 20180215..=20180216 | 20180219..=20180220 | 20180404 | 20180406 | 20180618 | 20180924 | 20181231),
        2019 => matches!(x.k, 20190204..=20190208 | 20190301 | 20190404 | 20190607 | 20190913 | 20191011),
        2020 => matches!(x.k, 20200123..=20200124 | 20200127..=20200129 | 20200402..=20200403 | 20200625..=20200626 | 20201001..=20201002 | 20201009),
        2021 => matches!(x.k, 20210210..=20210212 | 20210215..=20210216 | 20210301 | 20210402 | 20210430 | 20210614 | 20210920..=20210921 | 20211011 | 20211231),
        2022 => matches!(x.k, 20220131 | 20220201..=20220204 | 20220404 | 20220502 | 20220603 | 20220909),
        2023 => matches!(x.k, 20230102 | 20230120 | 20230123..=20230127 | 20230227 | 20230403..=20230404 | 20230622..=20230623 | 20230929 | 20231009),
        2024 => matches!(x.k, 20240208..=20240209 | 20240212..=20240214 | 20240404 | 20240610 | 20240917),
        2025 => matches!(x.k, 20250123..=20250124 | 20250127..=20250131 | 20250403..=20250404 | 20250530 | 20251006),
        2026 => matches!(x.k, 20260212..=20260213 | 20260216..=20260220 | 20260227 | 20260403 | 20260406 | 20260619 | 20260925 | 20261009),
        _ => false,
    }
}
pub fn india(x: &D) -> bool {
    india_rules(x) || match x.y {
        2005 => matches!(x.k, 20050121 | 20050907 | 20051012 | 20051101 | 20051103 | 20051115),
        2006 => matches!(x.k, 20060111 | 20060209 | 20060315 | 20060406 | 20060411 | 20061024..=20061025),
        2007 => matches!(x.k, 20070101 | 20070130 | 20070216 | 20070327 | 20070502 | 20071109 | 20071221),
        2008 => matches!(x.k, 20080306 | 20080320 | 20080418 | 20080519 | 20080903 | 20081009 | 20081028 | 20081030 | 20081113 | 20081209),
        2009 => matches!(x.k, 20090108 | 20090223 | 20090310..=20090311 | 20090403 | 20090407 | 20090921 | 20090928 | 20091019 | 20091102 | 20091228),
        2010 => matches!(x.k, 20100101 | 20100212 | 20100301 | 20100324 | 20100910 | 20101105 | 20101117 | 20101217),
        2011 => matches!(x.k, 20110302 | 20110412 | 20110831 | 20110901 | 20111006 | 20111026..=20111027 | 20111107 | 20111110 | 20111206),
        2012 => matches!(x.k, 20120220 | 20120308 | 20120405 | 20120820 | 20120919 | 20121024 | 20121114 | 20121128),
        2013 => matches!(x.k, 20130327 | 20130419 | 20130424 | 20130809 | 20130909 | 20131016 | 20131104 | 20131114),
        2014 => matches!(x.k, 20140227 | 20140317 | 20140408 | 20140729 | 20140829 | 20141003 | 20141006 | 20141024 | 20141104 | 20141106),
        2019 => matches!(x.k, 20190219 | 20190304 | 20190321 | 20190401 | 20190417 | 20190429 | 20190605 | 20190812 | 20190902 | 20190910 | 20191008 | 20191021 | 20191028 | 20191112),
        2020 => matches!(x.k, 20200219 | 20200221 | 20200310 | 20200325 | 20200401..=20200402 | 20200406 | 20200507 | 20200525 | 20201030 | 20201116 | 20201130),
        2021 => matches!(x.k, 20210219 | 20210311 | 20210329 | 20210413 | 20210421 | 20210526 | 20210721 | 20210910 | 20211015 | 20211019 | 20211105 | 20211119),
        2022 => matches!(x.k, 20220301 | 20220318 | 20220503 | 20220516 | 20220831 | 20221005 | 20221026 | 20221108),
        2023 => matches!(x.k, 20230307 | 20230322 | 20230330 | 20230404 | 20230505 | 20230629 | 20230816 | 20230919 | 20230929 | 20231024 | 20231114 | 20231127),
        2024 => matches!(x.k, 20240122 | 20240219 | 20240308 | 20240325 | 20240401 | 20240409 | 20240411 | 20240417 | 20240520 | 20240523 | 20240617 | 20240717 | 20240916 | 20241101 | 20241115),
        2025 => matches!(x.k, 20250219 | 20250226 | 20250314 | 20250331 | 20250410 | 20250512 | 20250905 | 20251022 | 20251105),
        _ => false,
    }
}
pub fn indonesia(x: &D) -> bool {
    indonesia_rules(x) || match x.y {
        2005 => matches!(x.k, 20050121 | 20050209..=20050210 | 20050311 | 20050422 | 20050524 | 20050902 | 20051102..=20051104 | 20051107..=20051108 | 20051226),
        2006 => matches!(x.k, 20060110 | 20060131 | 20060330 | 20060410 | 20060821 | 20061023..=20061027),
        2007 => matches!(x.k, 20070319 | 20070518 | 20070601 | 20071012 | 20071015..=20071016 | 20071024 | 20071220),
        2008 => matches!(x.k, 20080110..=20080111 | 20080207..=20080208 | 20080307 | 20080320 | 20080520 | 20080730 | 20080818 | 20080930 | 20081001..=20081003 | 20081208 | 20081229 | 20081231),
        2009 => matches!(x.k, 20090102 | 20090126 | 20090309 | 20090326 | 20090409 | 20090720 | 20090918 | 20090921..=20090923 | 20091127 | 20091218 | 20091224 | 20091231),
        2010 => matches!(x.k, 20100226 | 20100316 | 20100528 | 20100908..=20100910 | 20100913..=20100914 | 20101117 | 20101207 | 20101224 | 20101231),
        2011 => matches!(x.k, 20110203 | 20110215 | 20110517 | 20110629 | 20110829..=20110831 | 20110901..=20110902 | 20111226),
        2012 => matches!(x.k, 20120123 | 20120323 | 20120820..=20120822 | 20121026 | 20121115..=20121116 | 20121224 | 20121231),
        2013 => matches!(x.k, 20130124 | 20130312 | 20130606 | 20130805..=20130809 | 20131014..=20131015 | 20131105 | 20131226 | 20131231),
        2014 => matches!(x.k, 20140114 | 20140131 | 20140331 | 20140501 | 20140515 | 20140527 | 20140728..=20140731 | 20140801 | 20141226 | 20141231),
        _ => false,
    }
}
pub fn turkey(x: &D) -> bool {
    turkey_rules(x) || match x.y {
        2004 => matches!(x.k, 20040202..=20040204 | 20041115..=20041116),
        2005 => matches!(x.k, 20050119..=20050121 | 20051102..=20051104),
        2006 => matches!(x.k, 20060110..=20060113 | 20061023..=20061025),
        2007 => matches!(x.k, 20070102..=20070103 | 20071012 | 20071220..=20071221),
        2008 => matches!(x.k, 20080930 | 20081001..=20081002 | 20081208..=20081211),
        2009 => matches!(x.k, 20090921..=20090922 | 20091127 | 20091130),
        2010 => matches!(x.k, 20100909..=20100910 | 20101116..=20101119),
        2011 => matches!(x.k, 20111109..=20111111),
        2012 => matches!(x.k, 20120820..=20120821 | 20121024..=20121026),
        2013 => matches!(x.k, 20130807..=20130809 | 20131014..=20131018 | 20131028),
        2014 => matches!(x.k, 20140728..=20140730 | 20141006..=20141007),
        2015 => matches!(x.k, 20150717 | 20151026..=20151027),
        2016 => matches!(x.k, 20160705..=20160707 | 20160912..=20160915),
        2017 => matches!(x.k, 20170626..=20170627 | 20170901 | 20170904),
        2018 => matches!(x.k, 20180615 | 20180821..=20180824),
        2019 => matches!(x.k, 20190604..=20190606 | 20190812..=20190814),
        2020 => matches!(x.k, 20200525..=20200526 | 20200731 | 20200803),
        2021 => matches!(x.k, 20210513..=20210514 | 20210720..=20210723),
        2022 => matches!(x.k, 20220502..=20220504 | 20220711..=20220712),
        2023 => matches!(x.k, 20230421 | 20230628..=20230630),
        2024 => matches!(x.k, 20240410..=20240412 | 20240617..=20240619),
        2025 => matches!(x.k, 20250331 | 20250401..=20250402 | 20250606 | 20250609),
        2026 => matches!(x.k, 20260320 | 20260526..=20260529),
        2027 => matches!(x.k, 20270310..=20270312 | 20270517..=20270518),
        2028 => matches!(x.k, 20280228..=20280229 | 20280504..=20280505),
        2029 => matches!(x.k, 20290215..=20290216 | 20290424..=20290426),
        2030 => matches!(x.k, 20300205..=20300207 | 20300415..=20300416),
        2031 => matches!(x.k, 20310127 | 20310402..=20310404),
        2032 => matches!(x.k, 20320114..=20320116 | 20320322..=20320324),
        2033 => matches!(x.k, 20330103..=20330105 | 20330311 | 20330314 | 20331223),
        2034 => matches!(x.k, 20340228 | 20340301..=20340303 | 20341212..=20341214),
        _ => false,
    }
}
pub fn thailand(x: &D) -> bool {
    thailand_rules(x) || match x.y {
        2000 => matches!(x.k, 20000221 | 20000505 | 20000517 | 20000717),
        2001 => matches!(x.k, 20010208 | 20010507..=20010508 | 20010706),
        2005 => matches!(x.k, 20050223 | 20050505 | 20050523 | 20050701 | 20050722),
        2006 => matches!(x.k, 20060213 | 20060419 | 20060505 | 20060512 | 20060612..=20060613 | 20060711),
        2007 => matches!(x.k, 20070305 | 20070507 | 20070531 | 20070730 | 20071224),
        2008 => matches!(x.k, 20080221 | 20080505 | 20080519 | 20080701 | 20080717),
        2009 => matches!(x.k, 20090102 | 20090209 | 20090505 | 20090508 | 20090701 | 20090706..=20090707),
        2010 => matches!(x.k, 20100301 | 20100505 | 20100520..=20100521 | 20100528 | 20100701 | 20100726 | 20100813),
        2011 => matches!(x.k, 20110218 | 20110505 | 20110516..=20110517 | 20110701 | 20110715),
        2012 => matches!(x.k, 20120103 | 20120307 | 20120409 | 20120507 | 20120604 | 20120802),
        2013 => matches!(x.k, 20130225 | 20130506 | 20130524 | 20130701 | 20130722 | 20131230),
        2014 => matches!(x.k, 20140214 | 20140505 | 20140513 | 20140701 | 20140711 | 20140811),
        2015 => matches!(x.k, 20150102 | 20150304 | 20150504..=20150505 | 20150601 | 20150701 | 20150730),
        2016 => matches!(x.k, 20160222 | 20160505..=20160506 | 20160520 | 20160701 | 20160718..=20160719),
        2017 => matches!(x.k, 20170213 | 20170510 | 20170710 | 20171026),
        2018 => matches!(x.k, 20180301 | 20180529 | 20180727),
        2019 => matches!(x.k, 20190219 | 20190520 | 20190716),
        2020 => matches!(x.k, 20200210 | 20200506 | 20200706 | 20200727 | 20200904 | 20200907 | 20201211),
        2021 => matches!(x.k, 20210212 | 20210226 | 20210526 | 20210726 | 20210924 | 20211022),
        2022 => matches!(x.k, 20220216 | 20220516 | 20220713 | 20220729 | 20221014),
        2023 => matches!(x.k, 20230306 | 20230505 | 20230801 | 20231229),
        2024 => matches!(x.k, 20240226 | 20240412 | 20240522 | 20240722),
        2025 => matches!(x.k, 20250212 | 20250512 | 20250710),
        _ => false,
    }
}
pub fn korea(x: &D) -> bool {
    korea_rules(x) || match x.y {
        2004 => matches!(x.k, 20040121..=20040123 | 20040415 | 20040526 | 20040927..=20040929),
        2005 => matches!(x.k, 20050208..=20050210 | 20050919),
        2006 => matches!(x.k, 20060130 | 20060531 | 20061005..=20061006),
        2007 => matches!(x.k, 20070219 | 20070524 | 20070924..=20070926 | 20071219),
        2008 => matches!(x.k, 20080206..=20080208 | 20080409 | 20080512 | 20080915),
        2009 => matches!(x.k, 20090126..=20090127 | 20091002),
        2010 => matches!(x.k, 20100215 | 20100521 | 20100602 | 20100921..=20100923),
        2011 => matches!(x.k, 20110202..=20110204 | 20110510 | 20110912..=20110913),
        2012 => matches!(x.k, 20120123..=20120124 | 20120411 | 20120528 | 20121001 | 20121219),
        2013 => matches!(x.k, 20130211 | 20130517 | 20130918..=20130920),
        2014 => matches!(x.k, 20140130..=20140131 | 20140506 | 20140604 | 20140908..=20140910),
        2015 => matches!(x.k, 20150218..=20150220 | 20150525 | 20150814 | 20150928..=20150929),
        2016 => matches!(x.k, 20160208..=20160210 | 20160413 | 20160914..=20160916),
        2017 => matches!(x.k, 20170127 | 20170130 | 20170503 | 20170509 | 20171004..=20171006),
        2018 => matches!(x.k, 20180215..=20180216 | 20180522 | 20180613 | 20180924..=20180926),
        2019 => matches!(x.k, 20190204..=20190206 | 20190912..=20190913),
        2020 => matches!(x.k, 20200124 | 20200127 | 20200415 | 20200430 | 20200817 | 20200930 | 20201001..=20201002),
        2021 => matches!(x.k, 20210211..=20210212 | 20210519 | 20210920..=20210922),
        2022 => matches!(x.k, 20220131 | 20220201..=20220202 | 20220309 | 20220601 | 20220909 | 20220912),
        2023 => matches!(x.k, 20230123..=20230124 | 20230529 | 20230928..=20230929 | 20231002),
        2024 => matches!(x.k, 20240209 | 20240212 | 20240410 | 20240515 | 20240916..=20240918 | 20241001),
        2025 => matches!(x.k, 20250128..=20250130 | 20250506 | 20251006..=20251008),
        2026 => matches!(x.k, 20260216..=20260218 | 20260525 | 20260924..=20260925),
        2027 => matches!(x.k, 20270208..=20270209 | 20270513 | 20270914..=20270916),
        2028 => matches!(x.k, 20280126..=20280128 | 20280502 | 20281002 | 20281004..=20281005),
        2029 => matches!(x.k, 20290212..=20290214 | 20290521 | 20290921 | 20290924),
        2030 => matches!(x.k, 20300204..=20300205 | 20300509 | 20300911..=20300913),
        2031 => matches!(x.k, 20310122..=20310124 | 20310528 | 20310930 | 20311001..=20311002),
        2032 => matches!(x.k, 20320210..=20320212 | 20320517 | 20320920..=20320921),
        2033 => matches!(x.k, 20330131 | 20330201..=20330202 | 20330506 | 20330907..=20330909),
        2034 => matches!(x.k, 20340220..=20340221 | 20340525 | 20340926..=20340928),
        2035 => matches!(x.k, 20350207..=20350209 | 20350515 | 20350917..=20350918),
        2036 => matches!(x.k, 20360128..=20360130 | 20360506 | 20361006..=20361007),
        2037 => matches!(x.k, 20370216..=20370217 | 20370522 | 20370923..=20370925),
        2038 => matches!(x.k, 20380203..=20380205 | 20380511 | 20380913..=20380915),
        2039 => matches!(x.k, 20390124..=20390126 | 20390502 | 20391004..=20391005),
        2040 => matches!(x.k, 20400213..=20400214 | 20400518 | 20400920..=20400921),
        2041 => matches!(x.k, 20410131 | 20410201 | 20410507 | 20410909..=20410911),
        2042 => matches!(x.k, 20420121..=20420123 | 20420526 | 20420929..=20420930),
        2043 => matches!(x.k, 20430209..=20430211 | 20430518 | 20430916..=20430918),
        2044 => matches!(x.k, 20440129 | 20440201 | 20440506 | 20441004..=20441006),
        2045 => matches!(x.k, 20450216..=20450217 | 20450524 | 20450925..=20450927),
        2046 => matches!(x.k, 20460205..=20460207 | 20460514 | 20460914 | 20460917),
        2047 => matches!(x.k, 20470125 | 20470128 | 20470502 | 20471004 | 20471007),
        2048 => matches!(x.k, 20480213..=20480214 | 20480520 | 20480921..=20480923),
        2049 => matches!(x.k, 20490201..=20490203 | 20490510 | 20490910 | 20490913),
        2050 => matches!(x.k, 20500124..=20500125 | 20500530 | 20500929..=20500930),
        _ => false,
    }
}
/// June solstice, Chilean civil date, 2021..=2199
pub static CHILE_SOLSTICE: [u8; 179] = [
    21, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20,
    20, 21, 21, 20, 20, 21, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20,
    20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 20, 20,
    20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 21,
    21, 21, 21, 21, 21, 21, 21, 20, 21, 21, 21, 20, 21, 21, 21, 20, 21, 21, 21, 20,
    21, 21, 21, 20, 21, 21, 21, 20, 21, 21, 21, 20, 21, 21, 21, 20, 20, 21, 21, 20,
    20, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20, 20, 21, 21, 20,
    20, 21, 21, 20, 20, 21, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20,
    20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 21, 20, 20, 20, 20,
];
