//! `conform season SEED SEASONS STEPS`: a league program written against the generic traits, as a
//! user of the library would write it.  It runs seasons of every rating system and records each
//! step as one JSON line, which spec/Trace.tla validates against the specification.
use crate::sys::{self, Enc};
use crate::val::{proto, Val};
use skillratings::{
    dwz, egf, elo, fifa, glicko, glicko2, glicko_boost, ingo, sticko, trueskill, uscf, weng_lin,
    MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, RatingPeriodSystem, RatingSystem, TeamRatingSystem,
};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        Self(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ stream.wrapping_mul(0xd1b5_4a32_d192_ed03))
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn real(&mut self, lo: f64, hi: f64) -> f64 {
        let x = (hi - lo).mul_add((self.next() >> 11) as f64 / (1u64 << 53) as f64, lo);
        if self.below(3) == 0 { x.round() } else { x }
    }
    fn outcome(&mut self) -> Outcomes {
        [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS][self.below(3)]
    }
}

pub fn json(v: &Val, out: &mut String) {
    match v {
        Val::Int(i) => out.push_str(&i.to_string()),
        Val::Bool(b) => out.push_str(&b.to_string()),
        Val::Str(s) => out.push_str(&serde_json::to_string(s).unwrap_or_default()),
        Val::Seq(s) => {
            out.push('[');
            for (i, x) in s.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json(x, out);
            }
            out.push(']');
        }
        Val::Rec(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&format!("\"{k}\":"));
                json(x, out);
            }
            out.push('}');
        }
    }
}

struct Recorder<'a, W: Write> {
    out: &'a mut W,
}
impl<W: Write> Recorder<'_, W> {
    fn line(&mut self, fields: Vec<(&str, Val)>) {
        let mut s = String::with_capacity(512);
        json(&Val::rec(fields), &mut s);
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap_or_else(|e| proto(&e.to_string()));
    }
}
fn ladder_val<R: Enc>(l: &[R]) -> Val {
    Val::Seq(l.iter().map(Enc::enc).collect())
}
/// A call that may panic; a panic is a result like any other.
fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default()
    })
}
fn ok(v: Val) -> Val {
    Val::rec(vec![("st", Val::s("ok")), ("out", v)])
}
fn panicked(m: &str) -> Val {
    Val::rec(vec![("st", Val::s("panic")), ("out", Val::s(m))])
}
fn idx(i: usize) -> Val {
    Val::n(i + 1)
}

type TeamStep<R> = dyn Fn(&mut Rng, &[R]) -> (Vec<(&'static str, Val)>, Result<Vec<Vec<R>>, String>);

fn season<R, C, S, W>(
    rec: &mut Recorder<W>,
    rng: &mut Rng,
    name: &str,
    cfg: &dyn Fn() -> C,
    player: &dyn Fn(&mut Rng) -> R,
    teams: Option<&TeamStep<R>>,
    steps: usize,
) where
    R: Enc + Copy,
    C: Enc,
    S: RatingSystem<RATING = R, CONFIG = C> + RatingPeriodSystem<RATING = R, CONFIG = C>,
    W: Write,
{
    let n = 3 + rng.below(3);
    let mut ladder: Vec<R> = (0..n).map(|_| player(rng)).collect();
    rec.line(vec![("ev", Val::s("start")), ("sys", Val::s(name)), ("cfg", cfg().enc()), ("ladder", ladder_val(&ladder))]);
    let games = <S as RatingSystem>::new(cfg());
    let periods = <S as RatingPeriodSystem>::new(cfg());
    for _ in 0..steps {
        let (mut fields, res) = match rng.below(10) {
            0 | 1 => {
                let i = rng.below(n);
                let r = attempt(|| RatingPeriodSystem::rate(&periods, &ladder[i], &[]));
                let res = match r {
                    Ok(x) => {
                        ladder[i] = x;
                        vec![ok(x.enc())]
                    }
                    Err(m) => vec![panicked(&m)],
                };
                (vec![("ev", Val::s("idle")), ("i", idx(i))], res)
            }
            2..=4 => {
                // a round: everybody is rated with the ratings everybody had before it
                let mut table = vec![vec![None; n]; n];
                for i in 0..n {
                    for j in i + 1..n {
                        if rng.below(5) > 0 {
                            let o = rng.outcome();
                            table[i][j] = Some(o);
                            table[j][i] = Some(match o {
                                Outcomes::WIN => Outcomes::LOSS,
                                Outcomes::DRAW => Outcomes::DRAW,
                                Outcomes::LOSS => Outcomes::WIN,
                            });
                        }
                    }
                }
                let before = ladder.clone();
                let res: Vec<Val> = (0..n)
                    .map(|i| {
                        let rs: Vec<(R, Outcomes)> =
                            (0..n).filter_map(|j| table[i][j].map(|o| (before[j], o))).collect();
                        match attempt(|| RatingPeriodSystem::rate(&periods, &before[i], &rs)) {
                            Ok(x) => {
                                ladder[i] = x;
                                ok(x.enc())
                            }
                            Err(m) => panicked(&m),
                        }
                    })
                    .collect();
                let t = table
                    .iter()
                    .map(|row| Val::Seq(row.iter().map(|o| o.map_or(Val::s("-"), sys::outcome_val)).collect()))
                    .collect();
                (vec![("ev", Val::s("round")), ("table", Val::Seq(t))], res)
            }
            5 | 6 if teams.is_some() => {
                let (f, r) = teams.unwrap()(rng, &ladder);
                let res = match r {
                    Ok(ts) => {
                        let v = Val::Seq(ts.iter().map(|t| ladder_val(t)).collect());
                        ladder = ts.into_iter().flatten().collect();
                        vec![ok(v)]
                    }
                    Err(m) => vec![panicked(&m)],
                };
                (f, res)
            }
            _ => {
                let i = rng.below(n);
                let j = (i + 1 + rng.below(n - 1)) % n;
                let o = rng.outcome();
                let res = match attempt(|| RatingSystem::rate(&games, &ladder[i], &ladder[j], &o)) {
                    Ok((a, b)) => {
                        ladder[i] = a;
                        ladder[j] = b;
                        vec![ok(Val::Seq(vec![a.enc(), b.enc()]))]
                    }
                    Err(m) => vec![panicked(&m)],
                };
                (vec![("ev", Val::s("play")), ("i", idx(i)), ("j", idx(j)), ("o", sys::outcome_val(o))], res)
            }
        };
        let stop = res.iter().any(|r| r.get("st").str() != "ok");
        fields.push(("res", Val::Seq(res)));
        fields.push(("ladder", ladder_val(&ladder)));
        rec.line(fields);
        if stop {
            return;
        }
    }
}

fn team_step<R, C, S>(cfg: &dyn Fn() -> C, rng: &mut Rng, ladder: &[R]) -> (Vec<(&'static str, Val)>, Result<Vec<Vec<R>>, String>)
where
    R: Copy,
    S: TeamRatingSystem<RATING = R, CONFIG = C> + MultiTeamRatingSystem<RATING = R, CONFIG = C>,
{
    let n = ladder.len();
    if rng.below(2) == 0 {
        let m = 1 + rng.below(n - 1);
        let o = rng.outcome();
        let s = <S as TeamRatingSystem>::new(cfg());
        let r = attempt(|| {
            let (a, b) = TeamRatingSystem::rate(&s, &ladder[..m], &ladder[m..], &o);
            vec![a, b]
        });
        (vec![("ev", Val::s("teams")), ("m", Val::n(m)), ("o", sys::outcome_val(o))], r)
    } else {
        let ranks: Vec<usize> = (0..n).map(|_| 1 + rng.below(n)).collect();
        let s = <S as MultiTeamRatingSystem>::new(cfg());
        let entries: Vec<(&[R], MultiTeamOutcome)> =
            (0..n).map(|i| (&ladder[i..=i], MultiTeamOutcome::new(ranks[i]))).collect();
        let r = attempt(|| MultiTeamRatingSystem::rate(&s, &entries));
        (vec![("ev", Val::s("multi")), ("ranks", Val::Seq(ranks.iter().map(|x| Val::n(*x)).collect()))], r)
    }
}

pub fn run(seed: u64, seasons: usize, steps: usize, out: &mut impl Write) {
    let mut rec = Recorder { out };
    for k in 0..seasons {
        let mut rng = Rng::new(seed, k as u64);
        let veteran = rng.below(2) == 0;
        let default = rng.below(2) == 0;
        macro_rules! go {
            ($name:literal, $R:ty, $C:ty, $S:ty, $cfg:expr, $player:expr, $teams:expr) => {
                season::<$R, $C, $S, _>(&mut rec, &mut rng, $name, &$cfg, &$player, $teams, steps)
            };
        }
        match k % 12 {
            0 => go!("elo", elo::EloRating, elo::EloConfig, elo::Elo,
                || if default { elo::EloConfig::new() } else { elo::EloConfig { k: 20.0 } },
                |g: &mut Rng| if veteran { elo::EloRating { rating: g.real(600.0, 2800.0) } } else { elo::EloRating::new() }, None),
            1 => go!("fifa", fifa::FifaRating, fifa::FifaConfig, fifa::Fifa,
                || if default { fifa::FifaConfig::new() } else { fifa::FifaConfig { importance: 50.0, knockout: true, penalties: false } },
                |g: &mut Rng| if veteran { fifa::FifaRating { rating: g.real(800.0, 2000.0) } } else { fifa::FifaRating::new() }, None),
            2 => go!("dwz", dwz::DWZRating, (), dwz::DWZ, || (),
                |g: &mut Rng| if veteran { dwz::DWZRating { rating: g.real(500.0, 2500.0), index: 1 + g.below(40), age: 8 + g.below(60) } } else { dwz::DWZRating::new(10 + g.below(30)) }, None),
            3 => go!("ingo", ingo::IngoRating, (), ingo::Ingo, || (),
                |g: &mut Rng| if veteran { ingo::IngoRating { rating: g.real(40.0, 260.0), age: 8 + g.below(60) } } else { ingo::IngoRating::new(10 + g.below(30)) }, None),
            4 => go!("egf", egf::EGFRating, egf::EGFConfig, egf::EGF,
                || if default { egf::EGFConfig::new() } else { egf::EGFConfig { handicap: 2.0 } },
                |g: &mut Rng| if veteran { egf::EGFRating { rating: g.real(-900.0, 2700.0) } } else { egf::EGFRating::new() }, None),
            5 => go!("uscf", uscf::USCFRating, uscf::USCFConfig, uscf::USCF,
                || if default { uscf::USCFConfig::new() } else { uscf::USCFConfig { t: 6.0 } },
                |g: &mut Rng| if veteran { uscf::USCFRating { rating: g.real(100.0, 2700.0), games: g.below(60) } } else { uscf::USCFRating::new(5 + g.below(30)) }, None),
            6 => go!("glicko", glicko::GlickoRating, glicko::GlickoConfig, glicko::Glicko, glicko::GlickoConfig::new,
                |g: &mut Rng| if veteran { glicko::GlickoRating { rating: g.real(900.0, 2400.0), deviation: g.real(30.0, 350.0) } } else { glicko::GlickoRating::new() }, None),
            7 => go!("glicko2", glicko2::Glicko2Rating, glicko2::Glicko2Config, glicko2::Glicko2, glicko2::Glicko2Config::new,
                |g: &mut Rng| if veteran { glicko2::Glicko2Rating { rating: g.real(900.0, 2400.0), deviation: g.real(30.0, 350.0), volatility: g.real(40.0, 90.0) / 1000.0 } } else { glicko2::Glicko2Rating::new() }, None),
            8 => go!("sticko", sticko::StickoRating, sticko::StickoConfig, sticko::Sticko,
                || if default { sticko::StickoConfig::new() } else { sticko::StickoConfig { h: 10.0, beta: 0.05, lambda: 2.0, gamma: 30.0, c: 10.0 } },
                |g: &mut Rng| if veteran { sticko::StickoRating { rating: g.real(900.0, 2400.0), deviation: g.real(30.0, 350.0) } } else { sticko::StickoRating::new() }, None),
            9 => go!("gboost", glicko_boost::GlickoBoostRating, glicko_boost::GlickoBoostConfig, glicko_boost::GlickoBoost, glicko_boost::GlickoBoostConfig::new,
                |g: &mut Rng| if veteran { glicko_boost::GlickoBoostRating { rating: g.real(900.0, 2400.0), deviation: g.real(30.0, 350.0) } } else { glicko_boost::GlickoBoostRating::new() }, None),
            10 => go!("wl", weng_lin::WengLinRating, weng_lin::WengLinConfig, weng_lin::WengLin, weng_lin::WengLinConfig::new,
                |g: &mut Rng| if veteran { weng_lin::WengLinRating { rating: g.real(15.0, 35.0), uncertainty: g.real(1.0, 8.0) } } else { weng_lin::WengLinRating::new() },
                Some(&|g: &mut Rng, l: &[weng_lin::WengLinRating]| team_step::<_, _, weng_lin::WengLin>(&weng_lin::WengLinConfig::new, g, l))),
            _ => go!("ts", trueskill::TrueSkillRating, trueskill::TrueSkillConfig, trueskill::TrueSkill, trueskill::TrueSkillConfig::new,
                |g: &mut Rng| if veteran { trueskill::TrueSkillRating { rating: g.real(18.0, 32.0), uncertainty: g.real(2.0, 8.0) } } else { trueskill::TrueSkillRating::new() },
                Some(&|g: &mut Rng, l: &[trueskill::TrueSkillRating]| team_step::<_, _, trueskill::TrueSkill>(&trueskill::TrueSkillConfig::new, g, l))),
        }
    }
}
