// Independence (C13): scripts, each using a coroutine of its own, are run alone and then interleaved step by step in every
// order, on main or inside other coroutines; each script must observe the same as alone.
#include "tasks.hpp"
namespace mc {
namespace {
// runs closures inside a coroutine-function
struct Carrier {
    std::function< void() > f;
    co::coroutine< void >::push_type c;
    Carrier() : c( Alloc( 9), [this]( co::coroutine< void >::pull_type & y) { while ( true) { if ( f) f(); y(); } }) {}
    void run( std::function< void() > g) { f = g; c(); f = nullptr; }
};
// group: number of elementary steps taken at once
void explore( int n, int group, bool carriers, const std::vector< int > & kinds) {
    int k[4]; std::unique_ptr< Task > t[4]; int pos[4];
    for ( int i = 0; i < NT; ++i) alone( i);
    int lo = 0;
    std::string names;
    for ( int i = 0; i < n; ++i) { k[i] = lo + choose( (int) kinds.size() - lo); lo = k[i]; }
    for ( int i = 0; i < n; ++i) { k[i] = kinds[k[i]]; t[i].reset( make( k[i], i + 2)); pos[i] = 0; names += std::string( i ? ", " : "") + tname[k[i]]; }
    note( "scripts: %s", names.c_str());
    int cm[4] = { 0, 0, 0, 0 };
    std::unique_ptr< Carrier > ca[2];
    if ( carriers) { for ( int i = 0; i < n; ++i) cm[i] = choose( 3); for ( int j = 0; j < 2; ++j) for ( int i = 0; i < n; ++i) if ( cm[i] == j + 1 && ! ca[j]) ca[j].reset( new Carrier()); }
    int left = n;
    while ( left) {
        int cand[4], nc = 0;
        for ( int i = 0; i < n; ++i) if ( pos[i] < 5) cand[nc++] = i;
        int i = cand[choose( nc)];
        for ( int g = 0; g < group && pos[i] < 5; ++g) {
            note( "  script %d (%s): step %d%s", i, tname[k[i]], pos[i], cm[i] ? " inside another coroutine" : "");
            int st = pos[i]++;
            Task * x = t[i].get();
            if ( cm[i]) ca[cm[i] - 1]->run( [x,st]() { x->step( st); }); else x->step( st);
            // the log so far is a prefix of the log alone
            std::vector< long > const& l = x->log, & s = solo[k[i]];
            ++n_checks;
            bool ok = l.size() <= s.size();
            for ( std::size_t j = 0; ok && j < l.size(); ++j) ok = l[j] == s[j];
            if ( ! ok) { fail( INDEP, "script \"%s\" observes [%s] when interleaved with (%s), but [%s] alone", tname[k[i]], show( l).c_str(), names.c_str(), show( s).c_str()); abandon(); }
        }
        transition( mix( k[i], pos[i]), mix( i, left));
        if ( pos[i] >= 5) {
            --left;
            ++n_checks;
            if ( t[i]->log.size() != solo[k[i]].size()) fail( INDEP, "script \"%s\" observes only [%s] when interleaved with (%s), but [%s] alone", tname[k[i]], show( t[i]->log).c_str(), names.c_str(), show( solo[k[i]]).c_str());
        }
        std::uint64_t h = n; for ( int j = 0; j < n; ++j) h = mix( h, k[j] * 8 + pos[j]);
        state( h);
    }
    for ( int i = 0; i < n; ++i) for ( long v : t[i]->log) observe( v);
}
struct Reg { Reg() {
    world_hooks();
    std::vector< int > all; for ( int i = 0; i < NT; ++i) all.push_back( i);
    std::vector< int > some = { 0, 1, 3, 4, 7, 9, 11, 12, 13, 15 };
    add_scenario( "indep.pairs", "every pair of 28 scripts, every interleaving of their 5 steps, each script on main or inside one of two other coroutines", [all]() { explore( 2, 1, true, all); }, 0, 3);
    add_scenario( "indep.triples", "every triple of 28 scripts, every interleaving of 3 step groups", [all]() { explore( 3, 2, false, all); }, 0, 4);
    add_scenario( "indep.quads", "every choice of 4 of 10 scripts (with repetition), every interleaving of 2 step groups", [some]() { explore( 4, 3, false, some); }, 0, 4);
    add_scenario( "indep.triples.deep", "every triple of 10 scripts, every interleaving of their 5 steps", [some]() { explore( 3, 1, false, some); }, 1, 5);
    add_scenario( "indep.triples-inside.deep", "every triple of 28 scripts, every interleaving of 3 step groups, each on main or inside one of two other coroutines", [all]() { explore( 3, 2, true, all); }, 1, 5);
    add_scenario( "indep.quads.deep", "every choice of 4 of 28 scripts (with repetition), every interleaving of 2 step groups", [all]() { explore( 4, 3, false, all); }, 1, 5);
} } reg;
}
}
