//! With the may_dangle feature containers may outlive what their elements refer to.
#[cfg(feature = "may_dangle")]
mod d {
    use hh::check;
    use hh::run::{Case, Scenario};
    use hh::trees::*;
    use hibit_tree::*;
    macro_rules! outlive { ($c:ident; $($t:ty),* $(,)?) => { $( {
        let n = $c.sz(6, 200);
        let mut late: $t = Default::default();
        let words: Vec<String> = (0..n).map(|i| format!("word {i}")).collect();
        let local = 7u64.to_string();
        let end = <$t as HibitTree>::index_range().end;
        let mut m = std::collections::BTreeMap::new();
        for i in 0..n {
            let k = $c.rng.below(end.min(5000));
            let w: &str = if i % 5 == 0 { &local } else { &words[i] };
            late.insert(k, w); m.insert(k, w);
            if $c.rng.chance(1, 4) { let k = $c.rng.below(end.min(5000)); check!(late.remove(k) == m.remove(&k), "remove({k})"); }
        }
        check!(late.iter().map(|(k, w)| (k, *w)).eq(m.iter().map(|(k, w)| (*k, *w))), "contents of a container of references");
        for (k, w) in &m { $c.record(w.len() as u64 ^ *k as u64) }
        $c.state(m.keys().fold(0, |h, k| hh::rng::mix2(h, *k as u64)));
        $c.count("containers_outliving_their_referents", 1);
    } )* } }
    fn trees(c: &mut Case) {
        c.label = "containers that outlive what they refer to".into();
        outlive!(c; DenseTree<&str, 1>, DenseTree<&str, 3>, DenseTree<&str, 5>, S64<1, &str>, S64<3, &str>, S64d<2, &str>);
        #[cfg(feature = "simd")]
        outlive!(c; S128<2, &str>, S256<2, &str>, S256d<1, &str>);
    }
    fn nested(c: &mut Case) {
        c.label = "containers of containers".into();
        let mut late: DenseTree<DenseTree<&u64, 2>, 2> = Default::default();
        let mut late2: S64<2, Vec<&u64>> = Default::default();
        let x: Vec<u64> = (0..20).collect();
        for i in 0..20 {
            let mut t = DenseTree::default();
            for j in 0..=i { t.insert(j * 7, &x[j]) }
            late.insert(i * 3, t);
            late2.insert(i, x[..i].iter().collect());
        }
        check!(late.iter().map(|(_, t)| t.iter().map(|x| *x.1).sum::<u64>()).sum::<u64>() == (0..20u64).map(|i| (0..=i).sum::<u64>()).sum(), "nested contents");
        check!(late2.iter().all(|(k, v)| v.len() == k), "contents");
        c.state(1);
    }
    pub const SC: &[Scenario] = &[("dangle_trees", 12, trees), ("dangle_nested", 4, nested)];
}
fn main() {
    #[cfg(feature = "may_dangle")] hh::run::main(d::SC);
    #[cfg(not(feature = "may_dangle"))] panic!("built without may_dangle");
}
