//! C22 diesel, against a backend of our own.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use diesel::backend::{sql_dialect as d, Backend, DieselReserveSpecialization, SqlDialect, TrustedBackend};
use diesel::deserialize::{self, FromSql};
use diesel::query_builder::{bind_collector::BindCollector, QueryBuilder};
use diesel::serialize::{self, IsNull, Output, ToSql};
use diesel::sql_types::{self, HasSqlType, Text as SqlText, TypeMetadata};
use diesel::QueryResult;

#[derive(Default, Debug)]
pub struct Db;
pub struct Builder;
pub struct Collector;

/// What was handed over as a str.
pub struct Given {
    b: [u8; 260],
    n: usize,
    calls: usize,
    /// Verdict of the backend: 0 not null, 1 null, else an error.
    answer: u8,
}
impl Given {
    fn new(answer: u8) -> Self {
        Given { b: [0; 260], n: 999, calls: 0, answer }
    }
}

#[derive(Debug, PartialEq)]
pub struct Refused(u8);
impl core::fmt::Display for Refused {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Refused {}

impl TypeMetadata for Db {
    type TypeMetadata = ();
    type MetadataLookup = Given;
}
macro_rules! known {
    ($($t:ident)*) => { $(
        impl HasSqlType<sql_types::$t> for Db {
            fn metadata(_: &mut Given) {}
        }
    )* };
}
known!(SmallInt Integer BigInt Float Double Text Binary Date Time Timestamp);

impl QueryBuilder<Db> for Builder {
    fn push_sql(&mut self, _: &str) {}
    fn push_identifier(&mut self, _: &str) -> QueryResult<()> {
        Ok(())
    }
    fn push_bind_param(&mut self) {}
    fn finish(self) -> String {
        String::new()
    }
}
impl<'a> BindCollector<'a, Db> for Collector {
    type Buffer = ();
    fn push_bound_value<T, U>(&mut self, _: &'a U, _: &mut Given) -> QueryResult<()>
    where
        Db: Backend + HasSqlType<T>,
        U: ToSql<T, Db> + ?Sized + 'a,
    {
        Ok(())
    }
    fn push_null_value(&mut self, _: ()) -> QueryResult<()> {
        Ok(())
    }
}
pub struct Raw<'a> {
    text: &'a str,
    fail: Option<u8>,
}
impl Backend for Db {
    type QueryBuilder = Builder;
    type RawValue<'a> = Raw<'a>;
    type BindCollector<'a> = Collector;
}
impl SqlDialect for Db {
    type ReturningClause = d::returning_clause::DoesNotSupportReturningClause;
    type OnConflictClause = d::on_conflict_clause::DoesNotSupportOnConflictClause;
    type InsertWithDefaultKeyword = d::default_keyword_for_insert::IsoSqlDefaultKeyword;
    type BatchInsertSupport = d::batch_insert_support::PostgresLikeBatchInsertSupport;
    type ConcatClause = d::concat_clause::ConcatWithPipesClause;
    type DefaultValueClauseForInsert = d::default_value_clause::AnsiDefaultValueClause;
    type EmptyFromClauseSyntax = d::from_clause_syntax::AnsiSqlFromClauseSyntax;
    type SelectStatementSyntax = d::select_statement_syntax::AnsiSqlSelectStatement;
    type ExistsSyntax = d::exists_syntax::AnsiSqlExistsSyntax;
    type ArrayComparison = d::array_comparison::AnsiSqlArrayComparison;
    type AliasSyntax = d::alias_syntax::AsAliasSyntax;
    type WindowFrameClauseGroupSupport = d::window_frame_clause_group_support::IsoGroupWindowFrameUnit;
    type WindowFrameExclusionSupport = d::window_frame_exclusion_support::FrameExclusionSupport;
    type AggregateFunctionExpressions = d::aggregate_function_expressions::PostgresLikeAggregateFunctionExpressions;
    type BuiltInWindowFunctionRequireOrder = d::built_in_window_function_require_order::NoOrderRequired;
}
impl TrustedBackend for Db {}
impl DieselReserveSpecialization for Db {}

impl ToSql<SqlText, Db> for str {
    fn to_sql<'b>(&'b self, out: &mut Output<'b, '_, Db>) -> serialize::Result {
        let g = out.metadata_lookup();
        let v = self.as_bytes();
        g.n = v.len();
        g.calls += 1;
        let k = if v.len() < 260 { v.len() } else { 260 };
        g.b[..k].copy_from_slice(&v[..k]);
        match g.answer {
            0 => Ok(IsNull::No),
            1 => Ok(IsNull::Yes),
            k => Err(Box::new(Refused(k))),
        }
    }
}
impl FromSql<SqlText, Db> for *const str {
    fn from_sql(r: Raw<'_>) -> deserialize::Result<Self> {
        match r.fail {
            None => Ok(r.text),
            Some(k) => Err(Box::new(Refused(k))),
        }
    }
}

#[inline(always)]
fn put<S: Api + ToSql<SqlText, Db>>(s: &S, t: &[u8], answer: u8) {
    let mut g = Given::new(answer);
    let r = {
        let mut out = Output::<Db>::new((), &mut g);
        s.to_sql(&mut out)
    };
    check!(g.calls == 1, "the text is handed over once");
    check!(g.n == t.len(), "as many bytes as the content");
    is_exactly(&g.b[..if g.n <= 260 { g.n } else { 0 }], t.len(), |i| t[i]);
    match r {
        Ok(IsNull::No) => check!(answer == 0, "not null exactly when the backend says so"),
        Ok(IsNull::Yes) => check!(answer == 1, "null exactly when the backend says so"),
        Err(e) => {
            check!(answer > 1, "an error exactly when the backend reports one");
            check!(matches!(e.downcast_ref::<Refused>(), Some(Refused(k)) if *k == answer), "the backend's error is passed on");
        }
    }
}

pub fn write<S: Api + ToSql<SqlText, Db>, const L: usize>() {
    let (s, t) = state::<S, L>();
    let answer = nd::u8() & 3;
    put(&s, t.bytes(), answer);
    witness!(t.len == L && answer == 0, "written");
    witness!(answer > 1, "refused");
}

pub fn write_big<S: Api + ToSql<SqlText, Db>, const K: usize>(l: usize) {
    let t = shaped::<K>(l, 0, &[]);
    let s = fresh::<S>(prefix(&t, l));
    put(&s, &t[..l], 0);
    witness!(true, "large");
}

#[inline(always)]
fn got<S: Api>(r: deserialize::Result<S>, m: usize, at: impl Fn(usize) -> u8) {
    let n = fit(m, S::CAP, &at);
    match &r {
        Ok(s) => is_exactly(text(s), n, &at),
        Err(_) => check!(false, "text is read"),
    }
    witness!(m > S::CAP && n < S::CAP, "cut before a character that only partly fits");
    witness!(m <= S::CAP && m > 0, "kept whole");
}

pub fn read<S: Api + FromSql<SqlText, Db>, const M: usize>() {
    let u = Text::<M>::any();
    let r = if nd::bool() { S::from_sql(Raw { text: u.as_str(), fail: None }) } else { S::from_nullable_sql(Some(Raw { text: u.as_str(), fail: None })) };
    got(r, u.len, |i| u.b[i]);
}

pub fn read_big<S: Api + FromSql<SqlText, Db>, const K: usize>(ls: &[usize]) {
    let mut k = 0;
    while k < ls.len() {
        let l = ls[k];
        let b = shaped::<K>(l, k, &[S::CAP]);
        got(S::from_sql(Raw { text: prefix(&b, l), fail: None }), l, |i| b[i]);
        k += 1;
    }
}

pub fn fails<S: Api + FromSql<SqlText, Db>>() {
    let k = nd::u8();
    match S::from_sql(Raw { text: "ab", fail: Some(k) }) {
        Ok(_) => check!(false, "the backend's error is not turned into a value"),
        Err(e) => check!(matches!(e.downcast_ref::<Refused>(), Some(Refused(x)) if *x == k), "the backend's error is passed on"),
    }
    check!(S::from_nullable_sql(None).is_err(), "NULL is not a string");
    witness!(k == 7, "failed");
}

/// There and back.
pub fn round<S: Api + ToSql<SqlText, Db> + FromSql<SqlText, Db>, const L: usize>() {
    let (s, t) = state::<S, L>();
    let mut g = Given::new(0);
    let ok = {
        let mut out = Output::<Db>::new((), &mut g);
        s.to_sql(&mut out).is_ok()
    };
    nd::assume(ok && g.n <= L);
    match S::from_sql(Raw { text: prefix(&g.b, g.n), fail: None }) {
        Ok(z) => check!(z == s, "equal after a round trip"),
        Err(_) => check!(false, "read back"),
    }
    witness!(t.len == L, "full");
}

harnesses! {
    q_write_n4 (8) = write::<A<4>, 4>();
    q_cache_write_n63 (8) = write::<Cs, 3>();
    q_write_big_n255 (12) = { write_big::<A<255>, 255>(255); write_big::<A<255>, 255>(130) };
    q_write_big_cache_n63 (12) = write_big::<Cs, 63>(63);
    q_read_n4 (9) = read::<A<4>, 7>();
    q_cache_read_n63 (12) = read_big::<Cs, 72>(&[5, 63, 64, 65, 66]);
    q_read_big_n255 (12) = read_big::<A<255>, 264>(&[128, 255, 256, 257, 258]);
    q_fails_n4 (8) = fails::<A<4>>();
    q_cache_fails_n63 (8) = fails::<Cs>();
    q_round_n4 (8) = round::<A<4>, 4>();
    t_read_n16 (24) = read::<A<16>, 20>();
    t_write_n16 (24) = write::<A<16>, 16>();
    t_round_n8 (14) = round::<A<8>, 8>();
    t_read_wide_n255 (12) = read_big::<A<255>, 520>(&[0, 254, 259, 511, 512, 513]);
}
