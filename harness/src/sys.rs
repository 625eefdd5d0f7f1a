//! One adapter per rating system: decodes a call of the specification, performs it on the real
//! library (through the free functions or through the traits) and encodes the result.
use crate::val::{proto, Val};
use serde::{de::DeserializeOwned, Serialize};
use skillratings::{
    dwz, egf, elo, fifa, glicko, glicko2, glicko_boost, ingo, sticko, trueskill, uscf, weng_lin,
    MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Rating, RatingPeriodSystem, RatingSystem,
    TeamRatingSystem,
};

pub type Res = Result<Val, Val>;

pub fn outcome(v: &Val) -> Outcomes {
    match v.str() {
        "W" => Outcomes::WIN,
        "D" => Outcomes::DRAW,
        "L" => Outcomes::LOSS,
        x => proto(&format!("bad outcome {x}")),
    }
}
pub fn outcome_val(o: Outcomes) -> Val {
    Val::s(match o {
        Outcomes::WIN => "W",
        Outcomes::DRAW => "D",
        Outcomes::LOSS => "L",
    })
}

/// Ratings and configurations as the specification writes them.
pub trait Enc: Sized {
    fn dec(v: &Val) -> Self;
    fn enc(&self) -> Val;
}
impl Enc for () {
    fn dec(_: &Val) -> Self {}
    fn enc(&self) -> Val {
        Val::rec(vec![("x", Val::Int(0))])
    }
}
macro_rules! enc {
    ($t:ty { $($f:ident : $k:literal $kind:ident),* }) => {
        impl Enc for $t {
            fn dec(v: &Val) -> Self { Self { $($f: enc!(@dec $kind v.get($k))),* } }
            fn enc(&self) -> Val { Val::rec(vec![$(($k, enc!(@enc $kind self.$f))),*]) }
        }
    };
    (@dec f $v:expr) => { $v.float() };
    (@dec n $v:expr) => { $v.usize() };
    (@dec b $v:expr) => { $v.bool() };
    (@enc f $v:expr) => { Val::f($v) };
    (@enc n $v:expr) => { Val::n($v) };
    (@enc b $v:expr) => { Val::Bool($v) };
}
enc!(elo::EloRating { rating: "r" f });
enc!(elo::EloConfig { k: "k" f });
enc!(fifa::FifaRating { rating: "r" f });
enc!(fifa::FifaConfig { importance: "imp" f, knockout: "ko" b, penalties: "pen" b });
enc!(dwz::DWZRating { rating: "r" f, index: "n" n, age: "a" n });
enc!(ingo::IngoRating { rating: "r" f, age: "a" n });
enc!(egf::EGFRating { rating: "r" f });
enc!(egf::EGFConfig { handicap: "h" f });
enc!(uscf::USCFRating { rating: "r" f, games: "n" n });
enc!(uscf::USCFConfig { t: "t" f });
enc!(glicko::GlickoRating { rating: "r" f, deviation: "d" f });
enc!(glicko::GlickoConfig { c: "c" f });
enc!(glicko2::Glicko2Rating { rating: "r" f, deviation: "d" f, volatility: "v" f });
enc!(glicko2::Glicko2Config { tau: "tau" f, convergence_tolerance: "tol" f });
enc!(sticko::StickoRating { rating: "r" f, deviation: "d" f });
enc!(sticko::StickoConfig { h: "h" f, beta: "beta" f, lambda: "lambda" f, gamma: "gamma" f, c: "c" f });
enc!(glicko_boost::GlickoBoostRating { rating: "r" f, deviation: "d" f });
enc!(weng_lin::WengLinRating { rating: "r" f, uncertainty: "d" f });
enc!(weng_lin::WengLinConfig { beta: "beta" f, uncertainty_tolerance: "tol" f });
enc!(trueskill::TrueSkillRating { rating: "r" f, uncertainty: "d" f });
enc!(trueskill::TrueSkillConfig { draw_probability: "dp" f, beta: "beta" f, dynamics_factor: "tau" f });
impl Enc for glicko_boost::GlickoBoostConfig {
    fn dec(v: &Val) -> Self {
        let f = |k: &str| v.get(k).float();
        Self {
            eta: f("eta"),
            k: f("k"),
            b: (f("b1"), f("b2")),
            alpha: (f("a0"), f("a1"), f("a2"), f("a3"), f("a4")),
        }
    }
    fn enc(&self) -> Val {
        let (a, b) = (&self.alpha, &self.b);
        Val::rec(vec![
            ("eta", Val::f(self.eta)), ("k", Val::f(self.k)), ("b1", Val::f(b.0)), ("b2", Val::f(b.1)),
            ("a0", Val::f(a.0)), ("a1", Val::f(a.1)), ("a2", Val::f(a.2)), ("a3", Val::f(a.3)), ("a4", Val::f(a.4)),
        ])
    }
}

fn seq<T: Enc>(v: &Val) -> Vec<T> {
    v.seq().iter().map(T::dec).collect()
}
fn out_seq<T: Enc>(v: &[T]) -> Val {
    Val::Seq(v.iter().map(Enc::enc).collect())
}
fn out_teams<T: Enc>(v: &[Vec<T>]) -> Val {
    Val::Seq(v.iter().map(|t| out_seq(t)).collect())
}
fn pair<T: Enc>(p: (T, T)) -> Val {
    Val::Seq(vec![p.0.enc(), p.1.enc()])
}
fn fpair(p: (f64, f64)) -> Val {
    Val::fs(&[p.0, p.1])
}
fn results<T: Enc>(v: &Val) -> Vec<(T, Outcomes)> {
    v.seq().iter().map(|g| (T::dec(g.get("q")), outcome(g.get("o")))).collect()
}
fn opponents<T: Enc>(v: &Val) -> Vec<T> {
    v.seq().iter().map(|g| T::dec(g.get("q"))).collect()
}

/// Serialises and deserialises, and reports the JSON keys on the way.
pub fn serde_trip<T: Enc + Serialize + DeserializeOwned>(x: &T) -> Res {
    let text = serde_json::to_string(x).map_err(|e| Val::s(&e.to_string()))?;
    let tree: serde_json::Value = serde_json::from_str(&text).map_err(|e| Val::s(&e.to_string()))?;
    let back: T = serde_json::from_str(&text).map_err(|e| Val::s(&e.to_string()))?;
    let mut keys: Vec<String> = tree.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    keys.sort();
    // through the self-describing tree as well (field order must not matter)
    let again: T = serde_json::from_value(tree).map_err(|e| Val::s(&e.to_string()))?;
    Ok(Val::rec(vec![
        ("back", back.enc()),
        ("again", again.enc()),
        ("keys", Val::Seq(keys.iter().map(|k| Val::s(k)).collect())),
    ]))
}

/// What every system offers.
pub fn generic<R, C, S>(op: &str, c: &Val) -> Option<Res>
where
    R: Enc + Rating + Copy + Default + Serialize + DeserializeOwned,
    C: Enc,
    S: RatingSystem<RATING = R, CONFIG = C> + RatingPeriodSystem<RATING = R, CONFIG = C>,
{
    let opt = |v: &Val| v.seq().first().map(Val::float);
    Some(Ok(match op {
        "rate" => {
            let s = <S as RatingSystem>::new(C::dec(c.get("cfg")));
            pair(RatingSystem::rate(&s, &R::dec(c.get("a")), &R::dec(c.get("b")), &outcome(c.get("o"))))
        }
        "exp" => {
            let s = <S as RatingSystem>::new(C::dec(c.get("cfg")));
            fpair(RatingSystem::expected_score(&s, &R::dec(c.get("a")), &R::dec(c.get("b"))))
        }
        "period" => {
            let s = <S as RatingPeriodSystem>::new(C::dec(c.get("cfg")));
            RatingPeriodSystem::rate(&s, &R::dec(c.get("a")), &results(c.get("gs"))).enc()
        }
        "expp" => {
            let s = <S as RatingPeriodSystem>::new(C::dec(c.get("cfg")));
            Val::fs(&RatingPeriodSystem::expected_score(&s, &R::dec(c.get("a")), &opponents::<R>(c.get("gs"))))
        }
        "ctor" => R::new(opt(c.get("r")), opt(c.get("d"))).enc(),
        "default" => R::default().enc(),
        "view" => {
            let r = R::dec(c.get("a"));
            Val::rec(vec![("r", Val::f(r.rating())), ("d", Val::fs(r.uncertainty().as_slice()))])
        }
        "serde" => return Some(serde_trip(&R::dec(c.get("a")))),
        _ => return None,
    }))
}

/// The team operations of Weng-Lin and TrueSkill through the traits.
fn teams_generic<R, C, S>(op: &str, c: &Val) -> Option<Res>
where
    R: Enc + Rating + Copy,
    C: Enc,
    S: TeamRatingSystem<RATING = R, CONFIG = C> + MultiTeamRatingSystem<RATING = R, CONFIG = C>,
{
    Some(Ok(match op {
        "teams" => {
            let s = <S as TeamRatingSystem>::new(C::dec(c.get("cfg")));
            let r = TeamRatingSystem::rate(&s, &seq::<R>(c.get("ta")), &seq::<R>(c.get("tb")), &outcome(c.get("o")));
            Val::Seq(vec![out_seq(&r.0), out_seq(&r.1)])
        }
        "expteams" => {
            let s = <S as TeamRatingSystem>::new(C::dec(c.get("cfg")));
            fpair(TeamRatingSystem::expected_score(&s, &seq::<R>(c.get("ta")), &seq::<R>(c.get("tb"))))
        }
        "multi" => {
            let s = <S as MultiTeamRatingSystem>::new(C::dec(c.get("cfg")));
            let ts: Vec<Vec<R>> = c.get("ts").seq().iter().map(seq).collect();
            out_teams(&MultiTeamRatingSystem::rate(&s, &ranked(&ts, c)))
        }
        "expmulti" => {
            let s = <S as MultiTeamRatingSystem>::new(C::dec(c.get("cfg")));
            let ts: Vec<Vec<R>> = c.get("ts").seq().iter().map(seq).collect();
            let refs: Vec<&[R]> = ts.iter().map(|t| &t[..]).collect();
            Val::fs(&MultiTeamRatingSystem::expected_score(&s, &refs))
        }
        _ => return None,
    }))
}
/// The teams with their ranks. `far` spreads the ranks (which keeps their order) up to where the
/// specification's own integers do not reach: 2^33, 2^63 or the largest number there is.
fn ranked<'a, R>(ts: &'a [Vec<R>], c: &Val) -> Vec<(&'a [R], MultiTeamOutcome)> {
    let ranks: Vec<usize> = c.get("ranks").seq().iter().map(|r| r.usize()).collect();
    if ranks.len() != ts.len() {
        proto("as many ranks as teams");
    }
    let top = ranks.iter().copied().max().unwrap_or(0).max(1);
    let unit = match if c.has("far") { c.get("far").usize() } else { 0 } {
        1 => (usize::MAX / top).max(1),
        2 => ((1usize << 63) / top).max(1),
        3 => ((1usize << 33) / top).max(1),
        _ => 1,
    };
    ts.iter().zip(ranks).map(|(t, r)| (&t[..], MultiTeamOutcome::new(r * unit))).collect()
}

macro_rules! plain_ops {
    ($m:ident, $c:ident, $op:ident, $R:ty, rate $rate:expr, exp $exp:expr, period $period:expr, expp $expp:expr) => {
        match $op {
            "rate" => Some(Ok(pair($rate(&<$R>::dec($c.get("a")), &<$R>::dec($c.get("b")), &outcome($c.get("o")))))),
            "exp" => Some(Ok(fpair($exp(&<$R>::dec($c.get("a")), &<$R>::dec($c.get("b")))))),
            "period" => Some(Ok($period(&<$R>::dec($c.get("a")), $c.get("gs")).enc())),
            "expp" => Some(Ok(Val::fs(&$expp(&<$R>::dec($c.get("a")), $c.get("gs"))))),
            _ => None,
        }
    };
}

fn usz(c: &Val) -> usize {
    c.get("age").usize()
}

pub fn fn_call(sys: &str, op: &str, c: &Val) -> Option<Res> {
    match sys {
        "elo" => {
            use elo::*;
            let cfg = || EloConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(EloRating::new().enc())),
                "from1" => Some(Ok(EloRating::from(c.get("r").float()).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![EloConfig::new().enc(), EloConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                _ => plain_ops!(elo, c, op, EloRating,
                    rate |a, b, o| elo(a, b, o, &cfg()),
                    exp expected_score,
                    period |a, gs| elo_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<EloRating>(gs))),
            }
        }
        "fifa" => {
            use fifa::*;
            let cfg = || FifaConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(FifaRating::new().enc())),
                "from1" => Some(Ok(FifaRating::from(c.get("r").float()).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![FifaConfig::new().enc(), FifaConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                _ => plain_ops!(fifa, c, op, FifaRating,
                    rate |a, b, o| fifa(a, b, o, &cfg()),
                    exp expected_score,
                    period |a, gs: &Val| fifa_rating_period(a, &gs.seq().iter().map(|g|
                        (FifaRating::dec(g.get("q")), outcome(g.get("o")), FifaConfig::dec(g.get("cfg")))).collect::<Vec<_>>()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<FifaRating>(gs))),
            }
        }
        "dwz" => {
            use dwz::*;
            match op {
                "new" => Some(Ok(DWZRating::new(usz(c)).enc())),
                "from2" => Some(Ok(DWZRating::from((c.get("r").float(), c.get("n").usize())).enc())),
                "from3" => Some(Ok(DWZRating::from((c.get("r").float(), c.get("n").usize(), c.get("k").usize())).enc())),
                "first" => Some(match get_first_dwz(usz(c), &results(c.get("gs"))) {
                    Ok(r) => Ok(r.enc()),
                    Err(e) => Err(Val::rec(vec![("kind", Val::s(match e {
                        GetFirstDWZError::NotEnoughGames => "NotEnoughGames",
                        GetFirstDWZError::InvalidWinRate => "InvalidWinRate",
                    }))])),
                }),
                _ => plain_ops!(dwz, c, op, DWZRating,
                    rate dwz, exp expected_score,
                    period |a, gs| dwz_rating_period(a, &results(gs)),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<DWZRating>(gs))),
            }
        }
        "ingo" => {
            use ingo::*;
            match op {
                "new" => Some(Ok(IngoRating::new(usz(c)).enc())),
                "from1" => Some(Ok(IngoRating::from(c.get("r").float()).enc())),
                "from2" => Some(Ok(IngoRating::from((c.get("r").float(), c.get("n").usize())).enc())),
                _ => plain_ops!(ingo, c, op, IngoRating,
                    rate ingo, exp expected_score,
                    period |a, gs| ingo_rating_period(a, &results(gs)),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<IngoRating>(gs))),
            }
        }
        "egf" => {
            use egf::*;
            let cfg = || EGFConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(EGFRating::new().enc())),
                "from1" => Some(Ok(EGFRating::from(c.get("r").float()).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![EGFConfig::new().enc(), EGFConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                _ => plain_ops!(egf, c, op, EGFRating,
                    rate |a, b, o| egf(a, b, o, &cfg()),
                    exp |a, b| expected_score(a, b, &cfg()),
                    period |a, gs: &Val| egf_rating_period(a, &gs.seq().iter().map(|g|
                        (EGFRating::dec(g.get("q")), outcome(g.get("o")), EGFConfig::dec(g.get("cfg")))).collect::<Vec<_>>()),
                    expp |a, gs: &Val| expected_score_rating_period(a, &gs.seq().iter().map(|g|
                        (EGFRating::dec(g.get("q")), EGFConfig::dec(g.get("cfg")))).collect::<Vec<_>>())),
            }
        }
        "uscf" => {
            use uscf::*;
            let cfg = || USCFConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(USCFRating::new(usz(c)).enc())),
                "from2" => Some(Ok(USCFRating::from((c.get("r").float(), c.get("n").usize())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![USCFConfig::new().enc(), USCFConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                _ => plain_ops!(uscf, c, op, USCFRating,
                    rate |a, b, o| uscf(a, b, o, &cfg()),
                    exp expected_score,
                    period |a, gs| uscf_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<USCFRating>(gs))),
            }
        }
        "glicko" => {
            use glicko::*;
            let cfg = || GlickoConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(GlickoRating::new().enc())),
                "from2" => Some(Ok(GlickoRating::from((c.get("r").float(), c.get("d").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![GlickoConfig::new().enc(), GlickoConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "decay" => Some(Ok(decay_deviation(&GlickoRating::dec(c.get("a")), &cfg()).enc())),
                "ci" => Some(Ok(fpair(confidence_interval(&GlickoRating::dec(c.get("a")))))),
                _ => plain_ops!(glicko, c, op, GlickoRating,
                    rate |a, b, o| glicko(a, b, o, &cfg()),
                    exp expected_score,
                    period |a, gs| glicko_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<GlickoRating>(gs))),
            }
        }
        "glicko2" => {
            use glicko2::*;
            let cfg = || Glicko2Config::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(Glicko2Rating::new().enc())),
                "from3" => Some(Ok(Glicko2Rating::from((c.get("r").float(), c.get("d").float(), c.get("v").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![Glicko2Config::new().enc(), Glicko2Config::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "decay" => Some(Ok(decay_deviation(&Glicko2Rating::dec(c.get("a"))).enc())),
                "ci" => Some(Ok(fpair(confidence_interval(&Glicko2Rating::dec(c.get("a")))))),
                _ => plain_ops!(glicko2, c, op, Glicko2Rating,
                    rate |a, b, o| glicko2(a, b, o, &cfg()),
                    exp expected_score,
                    period |a, gs| glicko2_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<Glicko2Rating>(gs))),
            }
        }
        "sticko" => {
            use sticko::*;
            let cfg = || StickoConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(StickoRating::new().enc())),
                "from2" => Some(Ok(StickoRating::from((c.get("r").float(), c.get("d").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![StickoConfig::new().enc(), StickoConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "decay" => Some(Ok(decay_deviation(&StickoRating::dec(c.get("a")), &cfg()).enc())),
                "ci" => Some(Ok(fpair(confidence_interval(&StickoRating::dec(c.get("a")))))),
                _ => plain_ops!(sticko, c, op, StickoRating,
                    rate |a, b, o| sticko(a, b, o, &cfg()),
                    exp |a, b| expected_score(a, b, &cfg()),
                    period |a, gs: &Val| sticko_rating_period(a, &gs.seq().iter().map(|g|
                        (StickoRating::dec(g.get("q")), outcome(g.get("o")), g.get("w").bool())).collect::<Vec<_>>(), &cfg()),
                    expp |a, gs: &Val| expected_score_rating_period(a, &gs.seq().iter().map(|g|
                        (StickoRating::dec(g.get("q")), g.get("w").bool())).collect::<Vec<_>>(), &cfg())),
            }
        }
        "gboost" => {
            use glicko_boost::*;
            let cfg = || GlickoBoostConfig::dec(c.get("cfg"));
            match op {
                "new" => Some(Ok(GlickoBoostRating::new().enc())),
                "from2" => Some(Ok(GlickoBoostRating::from((c.get("r").float(), c.get("d").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![GlickoBoostConfig::new().enc(), GlickoBoostConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "decay" => Some(Ok(decay_deviation(&GlickoBoostRating::dec(c.get("a")), &cfg()).enc())),
                "ci" => Some(Ok(fpair(confidence_interval(&GlickoBoostRating::dec(c.get("a")))))),
                _ => plain_ops!(glicko_boost, c, op, GlickoBoostRating,
                    rate |a, b, o| glicko_boost(a, b, o, &cfg()),
                    exp |a, b| expected_score(a, b, &cfg()),
                    period |a, gs: &Val| glicko_boost_rating_period(a, &gs.seq().iter().map(|g|
                        (GlickoBoostRating::dec(g.get("q")), outcome(g.get("o")), g.get("w").bool())).collect::<Vec<_>>(), &cfg()),
                    expp |a, gs: &Val| expected_score_rating_period(a, &gs.seq().iter().map(|g|
                        (GlickoBoostRating::dec(g.get("q")), g.get("w").bool())).collect::<Vec<_>>(), &cfg())),
            }
        }
        "wl" => {
            use weng_lin::*;
            let cfg = || WengLinConfig::dec(c.get("cfg"));
            let team = |k: &str| seq::<WengLinRating>(c.get(k));
            let teams = || c.get("ts").seq().iter().map(seq).collect::<Vec<Vec<WengLinRating>>>();
            match op {
                "new" => Some(Ok(WengLinRating::new().enc())),
                "from2" => Some(Ok(WengLinRating::from((c.get("r").float(), c.get("d").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![WengLinConfig::new().enc(), WengLinConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "teams" => {
                    let r = weng_lin_two_teams(&team("ta"), &team("tb"), &outcome(c.get("o")), &cfg());
                    Some(Ok(Val::Seq(vec![out_seq(&r.0), out_seq(&r.1)])))
                }
                "expteams" => Some(Ok(fpair(expected_score_two_teams(&team("ta"), &team("tb"), &cfg())))),
                "multi" => {
                    let ts = teams();
                    Some(Ok(out_teams(&weng_lin_multi_team(&ranked(&ts, c), &cfg()))))
                }
                "expmulti" => {
                    let ts = teams();
                    let refs: Vec<&[WengLinRating]> = ts.iter().map(|t| &t[..]).collect();
                    Some(Ok(Val::fs(&expected_score_multi_team(&refs, &cfg()))))
                }
                _ => plain_ops!(weng_lin, c, op, WengLinRating,
                    rate |a, b, o| weng_lin(a, b, o, &cfg()),
                    exp |a, b| expected_score(a, b, &cfg()),
                    period |a, gs| weng_lin_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<WengLinRating>(gs), &cfg())),
            }
        }
        "ts" => {
            use trueskill::*;
            let cfg = || TrueSkillConfig::dec(c.get("cfg"));
            let one = |k: &str| TrueSkillRating::dec(c.get(k));
            let team = |k: &str| seq::<TrueSkillRating>(c.get(k));
            let teams = || c.get("ts").seq().iter().map(seq).collect::<Vec<Vec<TrueSkillRating>>>();
            let werr = |e: WeightError| match e {
                WeightError::TeamAmount => ("TeamAmount", 0, 0),
                WeightError::PlayerAmount { team } => ("PlayerAmount", team, 0),
                WeightError::Weight { team, player } => ("Weight", team, player),
            };
            let err = |e: WeightError| {
                let (k, t, p) = werr(e);
                Val::rec(vec![("kind", Val::s(k)), ("team", Val::n(t)), ("player", Val::n(p))])
            };
            // wt: <<>> for None, <<weights>> for Some(weights)
            let weights = || -> Option<Vec<Vec<f64>>> {
                c.get("wt").seq().first().map(|w| {
                    w.seq().iter().map(|t| t.seq().iter().map(Val::float).collect()).collect()
                })
            };
            match op {
                "new" => Some(Ok(TrueSkillRating::new().enc())),
                "from2" => Some(Ok(TrueSkillRating::from((c.get("r").float(), c.get("d").float())).enc())),
                "defcfg" => Some(Ok(Val::Seq(vec![TrueSkillConfig::new().enc(), TrueSkillConfig::default().enc()]))),
                "serdecfg" => Some(serde_trip(&cfg())),
                "rank" => Some(Ok(Val::f(get_rank(&one("a"))))),
                "quality" => Some(Ok(Val::f(match_quality(&one("a"), &one("b"), &cfg())))),
                "qualityp" => Some(Ok(Val::fs(&match_quality_rating_period(&one("a"), &opponents::<TrueSkillRating>(c.get("gs")), &cfg())))),
                "qualityteams" => Some(Ok(Val::f(match_quality_two_teams(&team("ta"), &team("tb"), &cfg())))),
                "qualitymulti" => {
                    let (ts, w) = (teams(), weights());
                    let refs: Vec<&[TrueSkillRating]> = ts.iter().map(|t| &t[..]).collect();
                    let wr: Option<Vec<&[f64]>> = w.as_ref().map(|w| w.iter().map(|t| &t[..]).collect());
                    Some(match_quality_multi_team(&refs, &cfg(), wr.as_deref()).map(Val::f).map_err(err))
                }
                "teams" => {
                    let r = trueskill_two_teams(&team("ta"), &team("tb"), &outcome(c.get("o")), &cfg());
                    Some(Ok(Val::Seq(vec![out_seq(&r.0), out_seq(&r.1)])))
                }
                "expteams" => Some(Ok(fpair(expected_score_two_teams(&team("ta"), &team("tb"), &cfg())))),
                "multi" => {
                    let (ts, w) = (teams(), weights());
                    let wr: Option<Vec<&[f64]>> = w.as_ref().map(|w| w.iter().map(|t| &t[..]).collect());
                    Some(trueskill_multi_team(&ranked(&ts, c), &cfg(), wr.as_deref())
                        .map(|r| out_teams(&r)).map_err(err))
                }
                "expmulti" => {
                    let ts = teams();
                    let refs: Vec<&[TrueSkillRating]> = ts.iter().map(|t| &t[..]).collect();
                    Some(Ok(Val::fs(&expected_score_multi_team(&refs, &cfg()))))
                }
                _ => plain_ops!(trueskill, c, op, TrueSkillRating,
                    rate |a, b, o| trueskill(a, b, o, &cfg()),
                    exp |a, b| expected_score(a, b, &cfg()),
                    period |a, gs| trueskill_rating_period(a, &results(gs), &cfg()),
                    expp |a, gs| expected_score_rating_period(a, &opponents::<TrueSkillRating>(gs), &cfg())),
            }
        }
        _ => None,
    }
}

/// Counters larger than the integers of the specification: hi * 2^31 + lo, there and back.
fn serde_big(sys: &str, c: &Val) -> Option<Res> {
    fn trip<T: Serialize + DeserializeOwned>(x: &T) -> T {
        serde_json::from_str(&serde_json::to_string(x).expect("serialises")).expect("deserialises")
    }
    let n = (c.get("hi").usize() << 31) + c.get("lo").usize();
    let m = match sys {
        "dwz" => {
            let b = trip(&dwz::DWZRating { rating: 1000.0, index: n, age: n });
            if b.age == b.index { b.index } else { b.age ^ b.index ^ 1 }
        }
        "ingo" => trip(&ingo::IngoRating { rating: 100.0, age: n }).age,
        "uscf" => trip(&uscf::USCFRating { rating: 1000.0, games: n }).games,
        _ => return None,
    };
    Some(Ok(Val::Seq(vec![Val::n(m >> 31), Val::n(m & 0x7fff_ffff)])))
}

/// Everything reached through the traits of the crate root (and the derives of the rating types).
pub fn trait_call(sys: &str, op: &str, c: &Val) -> Option<Res> {
    if op == "serdebig" {
        return serde_big(sys, c);
    }
    match sys {
        "elo" => generic::<elo::EloRating, elo::EloConfig, elo::Elo>(op, c),
        "fifa" => generic::<fifa::FifaRating, fifa::FifaConfig, fifa::Fifa>(op, c),
        "dwz" => generic::<dwz::DWZRating, (), dwz::DWZ>(op, c),
        "ingo" => generic::<ingo::IngoRating, (), ingo::Ingo>(op, c),
        "egf" => generic::<egf::EGFRating, egf::EGFConfig, egf::EGF>(op, c),
        "uscf" => generic::<uscf::USCFRating, uscf::USCFConfig, uscf::USCF>(op, c),
        "glicko" => generic::<glicko::GlickoRating, glicko::GlickoConfig, glicko::Glicko>(op, c),
        "glicko2" => generic::<glicko2::Glicko2Rating, glicko2::Glicko2Config, glicko2::Glicko2>(op, c),
        "sticko" => generic::<sticko::StickoRating, sticko::StickoConfig, sticko::Sticko>(op, c),
        "gboost" => generic::<
            glicko_boost::GlickoBoostRating,
            glicko_boost::GlickoBoostConfig,
            glicko_boost::GlickoBoost,
        >(op, c),
        "wl" => teams_generic::<weng_lin::WengLinRating, weng_lin::WengLinConfig, weng_lin::WengLin>(op, c)
            .or_else(|| generic::<weng_lin::WengLinRating, weng_lin::WengLinConfig, weng_lin::WengLin>(op, c)),
        "ts" => teams_generic::<trueskill::TrueSkillRating, trueskill::TrueSkillConfig, trueskill::TrueSkill>(op, c)
            .or_else(|| {
                generic::<trueskill::TrueSkillRating, trueskill::TrueSkillConfig, trueskill::TrueSkill>(op, c)
            }),
        _ => None,
    }
}

macro_rules! conversions {
    ($c:ident, $from:expr, $to:expr; $($f:literal $F:ty => $($t:literal $T:ty),*;)*) => {
        match ($from, $to) {
            $($(($f, $t) => Some(Ok(<$T>::from(<$F>::dec($c.get("a"))).enc())),)*)*
            _ => None,
        }
    };
}
pub fn convert(from: &str, to: &str, c: &Val) -> Option<Res> {
    use {
        dwz::DWZRating, elo::EloRating, fifa::FifaRating, glicko::GlickoRating, glicko2::Glicko2Rating,
        glicko_boost::GlickoBoostRating, ingo::IngoRating, sticko::StickoRating, trueskill::TrueSkillRating,
        uscf::USCFRating, weng_lin::WengLinRating,
    };
    conversions!(c, from, to;
        "elo" EloRating => "fifa" FifaRating, "dwz" DWZRating, "ingo" IngoRating, "uscf" USCFRating;
        "fifa" FifaRating => "elo" EloRating;
        "dwz" DWZRating => "elo" EloRating;
        "ingo" IngoRating => "elo" EloRating;
        "uscf" USCFRating => "elo" EloRating;
        "glicko" GlickoRating => "glicko2" Glicko2Rating, "sticko" StickoRating, "gboost" GlickoBoostRating;
        "glicko2" Glicko2Rating => "glicko" GlickoRating, "sticko" StickoRating, "gboost" GlickoBoostRating;
        "sticko" StickoRating => "glicko" GlickoRating, "glicko2" Glicko2Rating, "gboost" GlickoBoostRating;
        "gboost" GlickoBoostRating => "glicko" GlickoRating, "glicko2" Glicko2Rating, "sticko" StickoRating;
        "wl" WengLinRating => "ts" TrueSkillRating;
        "ts" TrueSkillRating => "wl" WengLinRating;
    )
}

/// Operations that belong to no rating system.
pub fn crate_call(op: &str, c: &Val) -> Option<Res> {
    Some(match op {
        "conv" => return convert(c.get("from").str(), c.get("to").str(), c),
        "points" => Ok(Val::f(outcome(c.get("o")).to_chess_points())),
        "mto" => {
            let (x, y) = (c.get("x").usize(), c.get("y").usize());
            let (a, b) = (MultiTeamOutcome::new(x), MultiTeamOutcome::from(y));
            Ok(Val::rec(vec![
                ("x", Val::n(a.rank())),
                ("y", Val::n(usize::from(b))),
                ("lt", Val::Bool(a < b)),
                ("eq", Val::Bool(a == b)),
            ]))
        }
        "serdeoutcome" => {
            let o = outcome(c.get("o"));
            let text = serde_json::to_string(&o).map_err(|e| Val::s(&e.to_string()));
            match text.and_then(|t| serde_json::from_str::<Outcomes>(&t).map_err(|e| Val::s(&e.to_string()))) {
                Ok(b) => Ok(outcome_val(b)),
                Err(e) => Err(e),
            }
        }
        "serdemto" => {
            let o = MultiTeamOutcome::new(c.get("x").usize());
            let text = serde_json::to_string(&o).map_err(|e| Val::s(&e.to_string()));
            match text.and_then(|t| serde_json::from_str::<MultiTeamOutcome>(&t).map_err(|e| Val::s(&e.to_string()))) {
                Ok(b) => Ok(Val::n(b.rank())),
                Err(e) => Err(e),
            }
        }
        _ => return None,
    })
}
