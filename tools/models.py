"""Which TLC models a module has, which of their formulas state which property, and which disagreements between the
specification and the code concern which property."""

# ---- models: module -> dict(mc=MC module, bfs={tier: [constants]}, sim={tier: [(constants, behaviours, depth)]})
W7 = '{"w1", "w2", "w3", "w4", "w5", "w6", "w7"}'
ACT7 = '{{"w1"}, {"w1", "w2"}, {"w1", "w2", "w3"}, {"w2", "w3", "w4", "w5"}, {"w3", "w4", "w5", "w6", "w7"}, {"w1", "w2", "w3", "w4", "w5", "w6", "w7"}, {}}'
THR = "{<<2, 3>>, <<1, 1>>, <<51, 100>>, <<3, 4>>, <<100000001, 200000001>>}"
SETS = '{"s1", "s2", "s3", "s4", "s5"}'

BADCOINS = '{<<>>, <<[d |-> "rew", n |-> 0]>>, <<[d |-> "other", n |-> 5]>>, <<[d |-> "rew", n |-> 5], [d |-> "other", n |-> 5]>>, <<[d |-> "rew", n |-> 2], [d |-> "rew", n |-> 3]>>}'

REGCOINS = '{<<>>, <<[d |-> "rew", n |-> 4]>>, <<[d |-> "rew", n |-> 5]>>, <<[d |-> "other", n |-> 5]>>, <<[d |-> "rew", n |-> 5], [d |-> "other", n |-> 5]>>, <<[d |-> "other", n |-> 2], [d |-> "rew", n |-> 3]>>}'



def nx(t):
    return "{" + ", ".join('[f |-> "%s", n |-> %s, x |-> %s]' % tuple(x.split(":")) for x in t.split()) + "}"


def nt(t):
    return "{" + ", ".join("[n |-> %s, x |-> %s, short |-> FALSE]" % tuple(x.split(":")) for x in t.split()) + "}"


def bc(t):
    return "{" + ", ".join('[k |-> "%s", n |-> %s]' % tuple(x.split(":")) for x in t.split()) + "}"


def pm(t):
    return "{" + ", ".join('[c |-> "%s", i |-> %s, d |-> "%s", v |-> %s]' % tuple(x.split(":")) for x in t.split()) + "}"


def pc(t):
    return "{" + ", ".join('[enc |-> "%s", kt |-> "%s", thr |-> <<%s, %s>>, diff |-> %s, chain |-> "B"]' % tuple(x.split(":")) for x in t.split()) + "}"


def tx(t):
    """{<<"a", "B">>, ...} from space-separated texts; _ is a space, tokens like AE are written <AE>, ~ the empty text"""
    import re
    one = lambda w: "<<" + ", ".join('"%s"' % (c[1:-1] if len(c) > 1 else c.replace("_", " ")) for c in re.findall(r"<\w+>|.", w) if c != "~") + ">>"
    return "{" + ", ".join(one(w) for w in t.split()) + "}"


NAMES = "a A ab AB aB b ~ a:b : <AE> <ae> k <KEL> <IDOT> i<DOT> a_ ab-1 Ab0 b-"
NREGS = "ab AB b : ~ <AE>"
NIDS = "~ 1 b1 : a:1"
GR = '{"%s"}'
QNUMS = '{N(0), N(1), N(2), N(3), N(4), N(5), BigSub(BigPow2(63), N(1)), BigPow2(63), BigSub(U64, N(1)), U64, BigAdd(U64, N(1))}'
QTHRS = '{<<N(2), N(3)>>, <<N(1), N(1)>>, <<BigPow2(63), U64>>, <<U64, U64>>, <<N(51), N(100)>>}'

YCFG = '{[vote |-> <<%s>>, expiry |-> %s, enc |-> "%s", kt |-> "%s", thr |-> <<%s>>, diff |-> %s, par |-> [dur |-> %s, rew |-> %s, num |-> 1, den |-> 2]]}'
YC = YCFG % ("2, 3", 2, "abi", "ecdsa", "2, 3", 0, 2, 7)
YSIM = [YCFG % ("2, 3", 12, "abi", "ecdsa", "2, 3", 0, 5, 12), YCFG % ("51, 100", 15, "bcs", "ed25519", "3, 4", 1, 10, 17)]

MODELS = {
    "router": dict(
        mc="MCRouter",
        bfs={
            "quick": [dict(Chains='{"A", "B"}', Regs='{"A", "B"}', Unknown='{"X"}', Gws='{"g1", "g2", "g3"}', MaxBatch=2, Ids="{1}")],
            "thorough": [
                dict(Chains='{"A", "B"}', Regs='{"A", "B", "X"}', Unknown='{"X"}', Gws='{"g1", "g2", "g3"}', MaxBatch=2, Ids="{1}"),
                dict(Chains='{"A", "B"}', Regs='{"A", "B"}', Unknown='{"X"}', Gws='{"g1", "g2"}', MaxBatch=3, Ids="{1}"),
            ],
        },
        sim={
            "quick": [(dict(Chains='{"A", "B", "C", "D"}', Regs='{"A", "B", "C", "D"}', Unknown='{"X", "Y"}', Gws='{"g1", "g2", "g3", "g4", "g5"}', MaxBatch=5, Ids="{1, 2, 3}"), 300, 60)],
            "thorough": [(dict(Chains='{"A", "B", "C", "D"}', Regs='{"A", "B", "C", "D"}', Unknown='{"X", "Y"}', Gws='{"g1", "g2", "g3", "g4", "g5"}', MaxBatch=6, Ids="{1, 2, 3}"), 8000, 80)],
        },
    ),
    "gateway": dict(
        mc="MCGateway",
        bfs={
            "quick": [dict(Srcs='{"A"}', Ids="{1, 2}", Dsts='{"B"}', Vs="{1, 2}", MaxBatch=2, MaxVer=2, Modes='{"up", "qdown", "xdown", "rdown"}')],
            "thorough": [dict(Srcs='{"A", "B"}', Ids="{1, 2}", Dsts='{"B"}', Vs="{1, 2}", MaxBatch=2, MaxVer=3, Modes='{"up", "qdown", "xdown", "rdown"}')],
        },
        sim={
            "quick": [(dict(Srcs='{"A", "B", "Y"}', Ids="{1, 2, 3}", Dsts='{"B", "C"}', Vs="{1, 2}", MaxBatch=6, MaxVer=9, Modes='{"qdown", "xdown", "rdown"}'), 300, 60)],
            "thorough": [(dict(Srcs='{"A", "B", "Y"}', Ids="{1, 2, 3}", Dsts='{"B", "C"}', Vs="{1, 2}", MaxBatch=7, MaxVer=9, Modes='{"qdown", "xdown", "rdown"}'), 6000, 80)],
        },
    ),
    "voting": dict(
        mc="MCVoting",
        bfs={
            "quick": [dict(Workers='{"w1", "w2", "w3"}', ActiveSets='{{"w1", "w2", "w3"}, {"w1", "w2"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{1}", Vs="{1, 2}", Dsts='{"B"}', BadIds="{90}", Sets='{"s1"}', MaxBatch=2, MaxPolls=1, MaxH=2, Ballot='{"S", "F"}')],
            "thorough": [dict(Workers='{"w1", "w2", "w3"}', ActiveSets='{{"w1", "w2", "w3"}, {"w1", "w2"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{1}", Vs="{1, 2}", Dsts='{"B"}', BadIds="{90}", Sets='{"s1"}', MaxBatch=2, MaxPolls=2, MaxH=2, Ballot='{"S", "F"}')],
        },
        sim={
            "quick": [(dict(Workers=W7, ActiveSets=ACT7, Thresholds=THR, Expiries="{1, 3, 6}", Ids="{1, 2, 3, 80, 81}", Vs="{1, 2}", Dsts='{"B", "C"}', BadIds="{90, 91, 92, 93, 94, 95, 96}", Sets=SETS, MaxBatch=4, MaxPolls=99, MaxH=999, Ballot='{"S"}'), 300, 80)],
            "thorough": [(dict(Workers=W7, ActiveSets=ACT7, Thresholds=THR, Expiries="{1, 3, 6}", Ids="{1, 2, 3, 80, 81}", Vs="{1, 2}", Dsts='{"B", "C"}', BadIds="{90, 91, 92, 93, 94, 95, 96}", Sets=SETS, MaxBatch=4, MaxPolls=99, MaxH=999, Ballot='{"S"}'), 6000, 120)],
        },
    ),
    "multisig": dict(
        mc="MCMultisig",
        bfs={
            "quick": [
                dict(Accts='{"anna", "bert", "cleo", "zoe"}', KeyNames='{"e1", "e2", "d1"}', SetNames='{"s1"}', Callers='{"p1"}', Msgs='{"m1", "m2", "short"}', Forms='{"ok", "alt", "junk"}', Graces="{1}", Pre="TRUE", MaxSessions=1, MaxH=3, Wrong="TRUE"),
                dict(Accts='{"anna", "bert"}', KeyNames='{"e1", "d1", "x1"}', SetNames='{"s1", "s2"}', Callers='{"p1", "p2"}', Msgs='{"m1", "short"}', Forms='{"ok"}', Graces="{0}", Pre="FALSE", MaxSessions=1, MaxH=0, Wrong="TRUE"),
            ],
            "thorough": [
                dict(Accts='{"anna", "bert", "cleo", "zoe"}', KeyNames='{"e1", "e2", "d1"}', SetNames='{"s1", "s3"}', Callers='{"p1"}', Msgs='{"m1", "m2", "short"}', Forms='{"ok", "alt", "junk"}', Graces="{1}", Pre="TRUE", MaxSessions=2, MaxH=3, Wrong="TRUE"),
                dict(Accts='{"anna", "bert"}', KeyNames='{"e1", "e2", "d1", "x1"}', SetNames='{"s1", "s2", "s5"}', Callers='{"p1", "p2"}', Msgs='{"m1", "short"}', Forms='{"ok"}', Graces="{0}", Pre="FALSE", MaxSessions=1, MaxH=0, Wrong="TRUE"),
            ],
        },
        sim={t: [(dict(Accts='{"anna", "bert", "cleo", "dora", "emil", "zoe"}', KeyNames='{"e1", "e2", "e3", "e4", "e5", "u1", "u2", "d1", "d2", "d3", "x1", "x2", "x3"}', SetNames='{"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "w1", "w2", "w3", "w4", "z1", "z2", "z3", "z4", "z5"}', Callers='{"p1", "p2", "p3"}', Msgs='{"m1", "m2", "m3", "short", "long", "empty"}', Forms='{"ok", "alt", "junk", "short", "long", "none"}', Graces="{0, 1, 5, 2147483647}", Pre="FALSE", MaxSessions=99, MaxH=999, Wrong="TRUE"), n, d)]
             for t, n, d in (("quick", 250, 80), ("thorough", 5000, 120))},
    ),
    "rewards": dict(
        mc="MCRewards",
        bfs={
            "quick": [
                # one pool in depth
                dict(Pools='{"pa"}', Workers0='{"alice", "bobby"}', Events='{"e1", "e2"}', Pars="{<<1, 5, 1, 2>>}", NewPars="{<<2, 3, 1, 1>>}", BadPars="{}", Amounts="{7}", BadCoins="{}", Limits="{0, 1, -1}", MaxH=4, MaxAdds=7, MaxRecs=3, MaxPars=1),
                # two pools, all kinds of deposits and parameters
                dict(Pools='{"pa", "pb"}', Workers0='{"alice", "bobby"}', Events='{"e1"}', Pars="{<<1, 5, 1, 1>>}", NewPars="{}", BadPars="{<<0, 5, 1, 1>>, <<1, 0, 1, 1>>, <<1, 5, 0, 1>>, <<1, 5, 2, 1>>, <<1, 5, 0, 0>>}", Amounts="{5}", BadCoins=BADCOINS, Limits="{0, 2147483647}", MaxH=3, MaxAdds=10, MaxRecs=2, MaxPars=0),
                # the clock: changes of the duration at every height
                dict(Pools='{"pa"}', Workers0='{"alice"}', Events='{"e1"}', Pars="{<<2, 5, 1, 1>>}", NewPars="{<<1, 5, 1, 1>>, <<3, 5, 1, 1>>, <<2147483647, 5, 1, 1>>}", BadPars="{}", Amounts="{15}", BadCoins="{}", Limits="{1, -1}", MaxH=7, MaxAdds=15, MaxRecs=1, MaxPars=2),
            ],
            "thorough": [
                dict(Pools='{"pa"}', Workers0='{"alice", "bobby"}', Events='{"e1", "e2"}', Pars="{<<1, 5, 1, 2>>}", NewPars="{<<2, 3, 1, 1>>}", BadPars="{}", Amounts="{7}", BadCoins="{}", Limits="{0, 1, 2, -1}", MaxH=5, MaxAdds=7, MaxRecs=4, MaxPars=2),
                dict(Pools='{"pa", "pb"}', Workers0='{"alice", "bobby"}', Events='{"e1"}', Pars="{<<1, 5, 1, 1>>}", NewPars="{}", BadPars="{<<0, 5, 1, 1>>, <<1, 0, 1, 1>>, <<1, 5, 0, 1>>, <<1, 5, 2, 1>>, <<1, 5, 0, 0>>}", Amounts="{5}", BadCoins=BADCOINS, Limits="{0, 1, 2147483647}", MaxH=4, MaxAdds=10, MaxRecs=3, MaxPars=0),
                dict(Pools='{"pa"}', Workers0='{"alice"}', Events='{"e1", "e2", "e3"}', Pars="{<<2, 5, 1, 1>>}", NewPars="{<<1, 5, 1, 1>>, <<3, 5, 1, 1>>, <<2147483647, 5, 1, 1>>}", BadPars="{}", Amounts="{15}", BadCoins="{}", Limits="{1, -1}", MaxH=9, MaxAdds=15, MaxRecs=3, MaxPars=3),
            ],
        },
        sim={t: [(dict(Pools='{"pa", "pb", "pc"}', Workers0='{"alice", "bobby", "carol", "david", "erika"}', Events='{"e" \\o ToString(n) : n \\in 1..40}', Pars="{<<1, 10, 1, 2>>, <<3, 100, 2, 3>>, <<5, 7, 7, 10>>}", NewPars="{<<1, 10, 1, 2>>, <<2, 2, 1, 3>>, <<3, 100, 2, 3>>, <<4, 1, 1, 1>>, <<10, 33, 99, 100>>, <<7, 1000, 1, 100>>}", BadPars="{<<0, 5, 1, 1>>, <<1, 0, 1, 1>>, <<1, 5, 0, 1>>, <<1, 5, 2, 1>>, <<1, 5, 0, 0>>}", Amounts="{1, 10, 100, 1000}", BadCoins=BADCOINS, Limits="{0, 1, 2, 3, 11, -1, 2147483647}", MaxH=9999, MaxAdds=999999, MaxRecs=9999, MaxPars=99), n, d)]
             for t, n, d in (("quick", 300, 100), ("thorough", 6000, 200))},
    ),
    "registry": dict(
        mc="MCRegistry",
        bfs={
            "quick": [
                # one service, two workers: stake against time
                dict(Svcs='{"s1"}', Kinds="{1}", Ws='{"alice", "bobby"}', Chains='{"A"}', CoinLists='{<<>>, <<[d |-> "rew", n |-> 3]>>}', Steps="{}", Times="{172799, 172800, 172801}", MaxHeld=6, Pre="TRUE", Callers='{"gov", "alice", "owner"}', MaxWs=1, MaxCs=1),
                # two services of different kinds, two chains: who is active
                dict(Svcs='{"s1", "s2"}', Kinds="{1}", Ws='{"alice"}', Chains='{"A", "B"}', CoinLists=REGCOINS, Steps="{}", Times="{}", MaxHeld=8, Pre="TRUE", Callers='{"gov", "alice", "owner"}', MaxWs=1, MaxCs=2),
                # registration of services
                dict(Svcs='{"s1", "s2"}', Kinds="{2, 3}", Ws='{"alice"}', Chains='{"A"}', CoinLists='{<<>>, <<[d |-> "rew", n |-> 1]>>, <<[d |-> "other", n |-> 1]>>}', Steps="{}", Times="{345599, 345600}", MaxHeld=2, Pre="FALSE", Callers='{"gov", "owner"}', MaxWs=1, MaxCs=1),
            ],
            "thorough": [
                dict(Svcs='{"s1"}', Kinds="{1}", Ws='{"alice", "bobby"}', Chains='{"A"}', CoinLists='{<<>>, <<[d |-> "rew", n |-> 3]>>, <<[d |-> "rew", n |-> 5]>>}', Steps="{}", Times="{172799, 172800, 172801, 345600}", MaxHeld=9, Pre="TRUE", Callers='{"gov", "alice", "owner"}', MaxWs=2, MaxCs=1),
                dict(Svcs='{"s1", "s2"}', Kinds="{1}", Ws='{"alice", "bobby"}', Chains='{"A", "B"}', CoinLists='{<<>>, <<[d |-> "rew", n |-> 5]>>}', Steps="{}", Times="{}", MaxHeld=10, Pre="TRUE", Callers='{"gov", "alice", "owner"}', MaxWs=1, MaxCs=1),
                dict(Svcs='{"s1", "s2"}', Kinds="{2, 3}", Ws='{"alice"}', Chains='{"A"}', CoinLists=REGCOINS, Steps="{}", Times="{345599, 345600}", MaxHeld=6, Pre="FALSE", Callers='{"gov", "owner"}', MaxWs=1, MaxCs=1),
            ],
        },
        sim={t: [(dict(Svcs='{"s1", "s2", "s3", "s4"}', Kinds="{1, 2, 3, 4, 5}", Ws='{"alice", "bobby", "carol", "david"}', Chains='{"A", "B", "C"}', CoinLists=REGCOINS, Steps="{1, 172799, 172800, 345599, 86401, 51840000}", Times="{}", MaxHeld=999999, Pre="FALSE", Callers='{"gov", "alice", "anyone"}', MaxWs=3, MaxCs=3), n, d)]
             for t, n, d in (("quick", 300, 90), ("thorough", 6000, 150))},
    ),
    "names": dict(
        mc="MCNames",
        bfs={
            "quick": [dict(Texts=tx(NAMES), Regs=tx(NREGS + " <ae> a:b"), Ids=tx(NIDS), Gws='{"g1", "g2"}', Workers='{"alice", "bobby"}', Groups=GR % "chain", MaxBox=2),
                      dict(Texts=tx(NAMES), Regs=tx(NREGS), Ids=tx(NIDS), Gws='{"g1"}', Workers='{"alice", "bobby"}', Groups=GR % "support", MaxBox=2),
                      dict(Texts=tx(NAMES), Regs=tx("a AB ab ~ a:b <AE> <ae>"), Ids=tx(NIDS), Gws='{"g1"}', Workers='{"alice"}', Groups=GR % "box", MaxBox=3),
                      dict(Texts=tx(NAMES), Regs=tx("a"), Ids=tx(NIDS), Gws='{"g1"}', Workers='{"alice"}', Groups=GR % "pure", MaxBox=2)],
            "thorough": [dict(Texts=tx(NAMES), Regs=tx(NREGS + " <ae> a:b <KEL> k"), Ids=tx(NIDS), Gws='{"g1", "g2", "g3"}', Workers='{"alice", "bobby"}', Groups=GR % "chain", MaxBox=2),
                         dict(Texts=tx(NAMES), Regs=tx(NREGS + " <KEL> k"), Ids=tx(NIDS), Gws='{"g1"}', Workers='{"alice", "bobby"}', Groups=GR % "support", MaxBox=2),
                         dict(Texts=tx(NAMES), Regs=tx("a AB ab ~ a:b <AE> <ae> k <KEL>"), Ids=tx(NIDS + " ab"), Gws='{"g1"}', Workers='{"alice"}', Groups=GR % "box", MaxBox=4),
                         dict(Texts=tx(NAMES + " B ba AA a1 a-1 A-0 <IDOT>a a0:"), Regs=tx("a"), Ids=tx(NIDS + " A 0 b: :b"), Gws='{"g1"}', Workers='{"alice"}', Groups=GR % "pure", MaxBox=2)],
        },
        sim={t: [(dict(Texts=tx(NAMES), Regs=tx(NREGS), Ids=tx(NIDS + " A"), Gws='{"g1", "g2", "g3"}', Workers='{"alice", "bobby"}', Groups='{"chain", "support", "box", "pure"}', MaxBox=99), n, d)]
             for t, n, d in (("quick", 100, 50), ("thorough", 4000, 80))},
    ),
    "quorum": dict(
        mc="MCQuorum",
        bfs={
            "quick": [dict(Nums=QNUMS, Thrs='{<<N(2), N(3)>>}', Weights='{N(1)}', MaxParts=1, Sizes='{1}', MaxH=0, Ballot='{"S"}', Wide='TRUE'),
                      dict(Nums='{}', Thrs=QTHRS, Weights='{N(0), N(1), N(2), U64, U256}', MaxParts=3, Sizes='{1}', MaxH=1, Ballot='{"S", "N"}', Wide='FALSE')],
            "thorough": [dict(Nums=QNUMS[:-1] + ', N(6), N(7), N(100), U128, U256, BigAdd(U128, N(1)), BigAdd(U256, N(1))}', Thrs='{<<N(2), N(3)>>}', Weights='{N(1)}', MaxParts=1, Sizes='{1}', MaxH=0, Ballot='{"S"}', Wide='TRUE'),
                         dict(Nums='{}', Thrs=QTHRS, Weights='{N(0), N(1), N(2), N(3), U64, U256}', MaxParts=3, Sizes='{1, 2}', MaxH=1, Ballot='{"S", "N"}', Wide='FALSE')],
        },
        sim={t: [(dict(Nums=QNUMS, Thrs=QTHRS, Weights='{N(0), N(1), N(2), N(3), N(10), U64, U128, BigPow2(255)}', MaxParts=7, Sizes='{1, 2, 3}', MaxH=999, Ballot='{"S"}', Wide='TRUE'), n, d)]
             for t, n, d in (("quick", 150, 60), ("thorough", 4000, 100))},
    ),
    "nexus": dict(
        mc="MCNexus",
        bfs={
            "quick": [dict(Srcs='{"A"}', Dsts='{"B"}', Vs="{1, 2}", Ids=nx('std:1:0 bare:1:0'), Txs=nt("1:0 0:0"), MaxBatch=3),
                      dict(Srcs='{"A", "B"}', Dsts='{"B"}', Vs="{1}", Ids=nx('std:1:0 three:1:0 words:1:0'), Txs=nt("1:0"), MaxBatch=2)],
            "thorough": [dict(Srcs='{"A", "B"}', Dsts='{"B"}', Vs="{1, 2}", Ids=nx('std:1:0 bare:1:0'), Txs=nt("1:0 0:0"), MaxBatch=3),
                         dict(Srcs='{"A", "B"}', Dsts='{"B"}', Vs="{1}", Ids=nx('std:1:0 three:1:0 words:1:0 std:2:0'), Txs=nt("1:0"), MaxBatch=2)],
        },
        sim={t: [(dict(Srcs='{"A", "B", "Y"}', Dsts='{"B", "C"}', Vs="{1, 2, 3}", Ids="[f : NiceForms \\cup {\"three\", \"nohex\", \"odd\", \"empty\", \"neg\", \"over\", \"nocolon\", \"noindex\", \"words\"}, n : 1..3, x : {0, 7, 2147483647}]", Txs="[n : 0..4, x : {0, 9, 2147483647}, short : BOOLEAN]", MaxBatch=6), n, d)]
             for t, n, d in (("quick", 200, 60), ("thorough", 5000, 100))},
    ),
    "batching": dict(
        mc="MCBatching",
        bfs={
            "quick": [dict(Simple=bc("call:1 bad:2 send:3 call:4"), MaxMust=2, MaxCan=3, MaxInner=0, MaxLog=0, Bals="{4, 6}"),
                      dict(Simple=bc("call:1 bad:2 send:3"), MaxMust=1, MaxCan=2, MaxInner=1, MaxLog=1, Bals="{5}")],
            "thorough": [dict(Simple=bc("call:1 bad:2 send:3 call:4"), MaxMust=2, MaxCan=3, MaxInner=0, MaxLog=1, Bals="{4, 6}"),
                         dict(Simple=bc("call:1 bad:2 send:3"), MaxMust=2, MaxCan=2, MaxInner=1, MaxLog=0, Bals="{5}")],
        },
        sim={t: [(dict(Simple=bc("call:1 call:2 call:3 bad:4 none:5 send:0 send:1 send:3 send:9 send:1000 fund:1 fund:2 fund:70"), MaxMust=3, MaxCan=4, MaxInner=3, MaxLog=999, Bals="{0, 10, 100, 1000}"), n, d)]
             for t, n, d in (("quick", 250, 12), ("thorough", 8000, 20))},
    ),
    "prover": dict(
        mc="MCProver",
        bfs={
            "quick": [
                # proofs of messages under one set
                dict(Cfgs=pc("abi:ecdsa:2:3:0 bcs:ed25519:1:1:0"), Workers='{"wk1", "wk2", "wk3"}', Keys="{}", Msgs=pm("A:1:B:1 A:2:B:1 A:3:C:1 A:4:B:9 A:7:B:1"), Actives='{{"wk1", "wk2", "wk3"}}', MaxIds=2, MaxH=0, MaxSess=1, Forms='{"ok", "alt", "junk"}', Toggles="{}", Pre='"all"'),
                # rotations
                dict(Cfgs=pc("bcs:ecdsa:2:3:1"), Workers='{"wk1", "wk2"}', Keys='{"e3"}', Msgs=pm("A:1:B:1"), Actives='{{"wk1", "wk2"}, {"wk1", "wk3"}, {"wk1"}, {}}', MaxIds=1, MaxH=1, MaxSess=1, Forms='{}', Toggles="{FALSE}", Pre='"two"'),
                # proofs across rotations
                dict(Cfgs=pc("abi:ecdsa:51:100:0"), Workers='{"wk1", "wk2"}', Keys="{}", Msgs=pm("A:1:B:1"), Actives='{{"wk1", "wk2"}, {"wk2"}}', MaxIds=1, MaxH=0, MaxSess=2, Forms='{"ok"}', Toggles="{}", Pre='"two"'),
            ],
            "thorough": [
                dict(Cfgs=pc("abi:ecdsa:2:3:0 bcs:ed25519:1:1:0 bcs:ecdsa:2:3:0"), Workers='{"wk1", "wk2", "wk3"}', Keys="{}", Msgs=pm("A:1:B:1 A:2:B:1 A:97:B:1 A:3:C:1 A:4:B:9"), Actives='{{"wk1", "wk2", "wk3"}}', MaxIds=2, MaxH=0, MaxSess=2, Forms='{"ok", "alt", "junk"}', Toggles="{}", Pre='"all"'),
                dict(Cfgs=pc("abi:ecdsa:1:1:0 bcs:ecdsa:2:3:2"), Workers='{"wk1", "wk2"}', Keys='{"e3", "d1"}', Msgs=pm("A:1:B:1"), Actives='{{"wk1", "wk2"}, {"wk1"}, {}}', MaxIds=1, MaxH=2, MaxSess=2, Forms='{}', Toggles="{FALSE, TRUE}", Pre='"no"'),
                dict(Cfgs=pc("bcs:ecdsa:51:100:0 abi:ecdsa:51:100:0"), Workers='{"wk1", "wk2"}', Keys="{}", Msgs=pm("A:1:B:1 A:2:B:1"), Actives='{{"wk1", "wk2"}, {"wk2"}}', MaxIds=2, MaxH=1, MaxSess=3, Forms='{"ok"}', Toggles="{}", Pre='"two"'),
            ],
        },
        sim={t: [(dict(Cfgs=pc("abi:ecdsa:2:3:0 bcs:ed25519:51:100:0 bcs:ecdsa:3:4:1 abi:ecdsa:1:1:2 bcs:ed25519:2:3:4 abi:ecdsa:51:100:0"), Workers='{"wk1", "wk2", "wk3", "wk4", "wk5"}', Keys='{"e1", "e2", "e3", "e4", "e5", "d1", "d2", "d3", "d4", "d5"}', Msgs=pm("A:1:B:1 A:2:B:1 A:97:B:1 A:3:B:2 C:1:B:1 C:2:B:3 A:5:C:1 C:6:B:9"), Actives='{{"wk1"}, {"wk1", "wk2"}, {"wk1", "wk2", "wk3", "wk4", "wk5"}, {"wk3", "wk4", "wk5"}, {}}', MaxIds=4, MaxH=99999, MaxSess=9999, Forms='{"ok", "alt", "junk"}', Toggles="{TRUE, FALSE}", Pre='"two"'), n, d)]
             for t, n, d in (("quick", 200, 80), ("thorough", 5000, 120))},
    ),
    "system": dict(
        mc="MCSystem",
        bfs={
            "quick": [
                # attestation and delivery
                dict(Cfgs=YC, Workers='{"wk1", "wk2"}', Msgs=pm("A:1:B:1 A:1:B:2"), NxMsgs="{}", Kinds='{"Next", "Freeze", "Verify", "Route", "Vote", "End"}', Setup='"ready"', MaxBatch=1, MaxPolls=1, MaxH=2, MaxSess=0, Ballot='{"S", "F"}', Leaps="{1}"),
                # rotation of the worker set
                dict(Cfgs=YC, Workers='{"wk1", "wk2"}', Msgs="{}", NxMsgs="{}", Kinds='{"Next", "Update", "Confirm", "VerifySet", "Vote", "Member", "Construct", "Sign"}', Setup='"ready"', MaxBatch=1, MaxPolls=1, MaxH=1, MaxSess=1, Ballot='{"S", "F"}', Leaps="{1}"),
            ],
            "thorough": [
                dict(Cfgs=YC, Workers='{"wk1", "wk2"}', Msgs=pm("A:1:B:1 A:1:B:2"), NxMsgs="{}", Kinds='{"Next", "Freeze", "Verify", "Route", "Vote", "End"}', Setup='"ready"', MaxBatch=2, MaxPolls=2, MaxH=2, MaxSess=0, Ballot='{"S", "F"}', Leaps="{1}"),
                dict(Cfgs=YC, Workers='{"wk1", "wk2"}', Msgs="{}", NxMsgs="{}", Kinds='{"Next", "Update", "Confirm", "VerifySet", "Vote", "Member", "Construct", "Sign"}', Setup='"ready"', MaxBatch=1, MaxPolls=2, MaxH=1, MaxSess=1, Ballot='{"S", "F"}', Leaps="{1}"),
            ],
        },
        sim={t: [(dict(Cfgs=c, Workers='{"wk1", "wk2", "wk3", "wk4", "wk5"}', Msgs=pm("A:1:B:1 A:1:B:2 A:2:B:1 A:3:B:9 A:4:C:1 A:5:A:1 B:1:A:1 B:1:A:2 B:2:B:1 B:3:C:1"), NxMsgs=pm("C:60:B:1 C:61:A:1 A:62:B:2 B:63:A:3 C:64:C:1"), Kinds="{}", Setup='"ready"', MaxBatch=3, MaxPolls=99, MaxH=9999, MaxSess=99, Ballot='{"S", "F", "N"}', Leaps=l), n, d)
                      for c, l in zip(YSIM, ("{1, 2}", "{1, 3, 14400}"))]
             for t, n, d in (("quick", 100, 100), ("thorough", 1500, 160))},
    ),
    "twins": dict(
        mc="MCVoting",
        bfs={
            "quick": [dict(Workers='{"w1"}', ActiveSets='{{"w1"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{1}", Vs="{1, 2, 3, 4}", Dsts='{"B"}', BadIds="{}", Sets='{"s1"}', MaxBatch=2, MaxPolls=1, MaxH=1, Ballot='{"S", "F"}'),
                      dict(Workers='{"w1"}', ActiveSets='{{"w1"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{2, 3}", Vs="{1}", Dsts='{"B", "C"}', BadIds="{}", Sets='{}', MaxBatch=2, MaxPolls=1, MaxH=1, Ballot='{"S", "F"}')],
            "thorough": [dict(Workers='{"w1"}', ActiveSets='{{"w1"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{1, 2}", Vs="{1, 2, 3, 4}", Dsts='{"B", "C"}', BadIds="{}", Sets='{"s1"}', MaxBatch=2, MaxPolls=1, MaxH=1, Ballot='{"S", "F"}')],
        },
        sim={t: [(dict(Workers='{"w1", "w2", "w3"}', ActiveSets='{{"w1", "w2", "w3"}}', Thresholds="{<<2, 3>>}", Expiries="{3}", Ids="1..6", Vs="1..6", Dsts='{"A", "B", "C", "D"}', BadIds="{}", Sets='{"s1", "s2", "s3", "s4", "s5"}', MaxBatch=6, MaxPolls=9999, MaxH=9999, Ballot='{"S", "F"}'), n, d)]
             for t, n, d in (("quick", 200, 60), ("thorough", 5000, 100))},
    ),
    "collide": dict(
        mc="MCVoting",
        bfs={t: [dict(Workers='{"w1"}', ActiveSets='{{"w1"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{85, 86}", Vs="{1}", Dsts='{"B"}', BadIds="{}", Sets='{}', MaxBatch=2, MaxPolls=1, MaxH=1, Ballot='{"S", "F"}'),
                 dict(Workers='{"w1"}', ActiveSets='{{"w1"}}', Thresholds="{<<2, 3>>}", Expiries="{1}", Ids="{87}", Vs="{1}", Dsts='{"A", "C"}', BadIds="{}", Sets='{}', MaxBatch=2, MaxPolls=1, MaxH=1, Ballot='{"S", "F"}')] for t in ("quick", "thorough")},
        sim={},
    ),
}

# finished proofs for any answer of the signing contract
def yc(t):
    return "{" + ", ".join('[enc |-> "%s", kt |-> "%s", scale |-> "%s", chain |-> "B"]' % tuple(x.split(":")) for x in t.split()) + "}"


Z20, Z60 = "0" * 20, "0" * 60
for _t in ("quick", "thorough"):
    for _c in MODELS["multisig"]["bfs"][_t]:
        _c["Zeros"] = '{""}'
    for _c, _n, _d in MODELS["multisig"]["sim"][_t]:
        _c["Zeros"] = '{"", "%s", "%s"}' % (Z20, Z60)
YMSGS = pm("A:1:B:1 A:2:B:2 C:1:B:1 A:10:B:3")
MODELS["assembly"] = dict(
    mc="MCAssembly",
    bfs={"quick": [dict(Cfgs=yc("abi:ecdsa: bcs:ecdsa:" + Z20 + " bcs:ed25519:"), Keys='{"e1", "e2", "e3", "d1", "d2", "d3"}', Ws="{1, 2, 4}", Msgs=pm("A:1:B:1"), MaxMembers=2, MaxMsgs=1, Sids='{"1"}', Forms='{"ok", "alt"}'),
                   dict(Cfgs=yc("abi:ecdsa:" + Z60 + " bcs:ed25519:"), Keys='{"e1", "e2", "e3", "d1", "d2", "d3"}', Ws="{1, 2}", Msgs=pm("A:1:B:1"), MaxMembers=3, MaxMsgs=1, Sids='{"7"}', Forms='{"ok"}')],
         "thorough": [dict(Cfgs=yc("abi:ecdsa: bcs:ecdsa:" + Z20 + " bcs:ed25519:"), Keys='{"e1", "e2", "e3", "d1", "d2", "d3"}', Ws="{1, 2, 4}", Msgs=pm("A:1:B:1"), MaxMembers=3, MaxMsgs=1, Sids='{"1"}', Forms='{"ok"}')]},
    sim={t: [(dict(Cfgs=yc(f"abi:ecdsa: abi:ecdsa:{Z20} abi:ecdsa:{Z60} bcs:ecdsa: bcs:ecdsa:{Z20} bcs:ed25519: bcs:ed25519:{Z20}"), Keys='{"e" \\o ToString(n) : n \\in 1..20} \\cup {"d" \\o ToString(n) : n \\in 1..20}', Ws="{1, 2, 3, 5, 10, 100, 999, 70000}", Msgs=YMSGS, MaxMembers=20, MaxMsgs=4, Sids='{"1", "2", "9", "10", "11", "100", "mid", "mid1", "big", "bigger"}', Forms='{"ok", "alt"}'), n, d)]
         for t, n, d in (("quick", 60, 60), ("thorough", 1500, 100))})

# polls with participants of any weight, for the properties of polls
MODELS["weights"] = dict(mc="MCQuorum", bfs={t: MODELS["quorum"]["bfs"][t][1:] for t in ("quick", "thorough")},
                         sim={t: [(c, n, d) for c, n, d in MODELS["quorum"]["sim"][t]] for t in ("quick", "thorough")})

# ---- larger scale, in simulation only: longer batches, more chains, workers, polls and sessions (two-digit numbers everywhere)
BIGW = '{"w" \\o ToString(n) : n \\in 10..33}'
BIGCH = '{"A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "M"}'
WK = '{"wk" \\o ToString(n) : n \\in %s}'
BIG = {
    "router": (dict(Chains=BIGCH, Regs=BIGCH, Unknown='{"X", "Y"}', Gws='{"g" \\o ToString(n) : n \\in 1..14}', MaxBatch=30, Ids="1..40"), 25, 150),
    "gateway": (dict(Srcs='{"A", "B", "C"}', Ids="1..40", Dsts='{"B", "C", "D"}', Vs="{1, 2, 3}", MaxBatch=30, MaxVer=9, Modes='{"qdown", "xdown", "rdown"}'), 20, 150),
    "voting": (dict(Workers=BIGW, ActiveSets="{" + BIGW + ', {"w" \\o ToString(n) : n \\in 10..20}, {"w" \\o ToString(n) : n \\in 15..33}, {"w10", "w33"}}', Thresholds="{<<2, 3>>, <<51, 100>>}", Expiries="{40, 100}", Ids="1..30", Vs="{1, 2}", Dsts='{"B", "C"}', BadIds="{90}", Sets=SETS, MaxBatch=30, MaxPolls=2, MaxH=999, Ballot='{"S"}'), 20, 250),
    "multisig": (dict(Accts='{"acc" \\o ToString(n) : n \\in 8..33}', KeyNames='{"e" \\o ToString(n) : n \\in 10..33}', SetNames='{"b1", "b2", "b3"}', Callers='{"p1", "p2"}', Msgs='{"m1", "m2", "m3", "short"}', Forms='{"ok", "alt", "junk"}', Graces="{5, 40}", Pre="FALSE", MaxSessions=3, MaxH=999, Wrong="TRUE"), 20, 250),
    "rewards": (dict(Pools='{"pa", "pb"}', Workers0='{"acc" \\o ToString(n) : n \\in 10..29}', Events='{"e" \\o ToString(n) : n \\in 1..200}', Pars="{<<1, 100, 1, 10>>, <<2, 1000, 1, 10>>}", NewPars="{<<1, 100, 1, 10>>, <<2, 70, 1, 20>>, <<3, 1000, 1, 5>>}", BadPars="{<<0, 5, 1, 1>>}", Amounts="{100, 1000, 100000}", BadCoins=BADCOINS, Limits="{0, 1, 2, 11, 25, -1, -1}", MaxH=9999, MaxAdds=999999999, MaxRecs=99999, MaxPars=99), 15, 500),
    "registry": (dict(Svcs='{"s1", "s2"}', Kinds="{1, 2}", Ws=WK % "1..25", Chains=BIGCH, CoinLists=REGCOINS, Steps="{1, 86401, 172800, 345600, 51839999}", Times="{}", MaxHeld=999999, Pre="TRUE", Callers='{"gov", "wk1", "owner"}', MaxWs=25, MaxCs=12), 20, 200),
    "nexus": (dict(Srcs='{"A", "B", "Y"}', Dsts='{"B", "C"}', Vs="{1, 2, 3}", Ids="[f : NiceForms, n : 1..12, x : {0, 7, 10, 12, 100, 2147483647}]", Txs="[n : 1..40, x : {0, 9, 10, 99, 100, 2147483647}, short : BOOLEAN]", MaxBatch=25), 20, 60),
    "batching": (dict(Simple=bc("call:1 call:2 call:3 call:4 bad:4 none:5 send:0 send:1 send:3 send:900 fund:1 fund:2 fund:700"), MaxMust=15, MaxCan=25, MaxInner=4, MaxLog=999, Bals="{1000, 500}"), 25, 12),
    "prover": (dict(Cfgs=pc("abi:ecdsa:2:3:0 bcs:ed25519:51:100:3 bcs:ecdsa:3:4:1 abi:ecdsa:51:100:10"), Workers=WK % "1..24", Keys='{"e" \\o ToString(n) : n \\in 1..30} \\cup {"d" \\o ToString(n) : n \\in 1..30}', Msgs='{[c |-> c, i |-> i, d |-> "B", v |-> (i % 3) + 1] : c \\in {"A", "C"}, i \\in {1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 20, 21}}', Actives="{" + WK % "1..24" + ", " + WK % "1..12" + ", " + WK % "5..20" + "}", MaxIds=14, MaxH=99999, MaxSess=9999, Forms='{"ok", "alt", "junk"}', Toggles="{TRUE}", Pre='"all"'), 10, 250),
}
HUGE = "100000000000000000000"
RICHER = {
    "rewards": (dict(Pools='{"pa", "pb"}', Workers0='{"alice", "bobby", "carol", "david", "erika"}', Events='{"e" \\o ToString(n) : n \\in 1..40}', Pars="{<<1, 120, 1, 2>>, <<3, 600, 2, 3>>}", NewPars="{<<1, 60, 1, 2>>, <<2, 60, 1, 3>>, <<4, 1200, 1, 1>>}", BadPars="{<<0, 60, 1, 1>>}", Amounts="{60, 600, 6000}", BadCoins=BADCOINS, Limits="{0, 1, 2, 11, -1}", MaxH=9999, MaxAdds=999999999, MaxRecs=99999, MaxPars=99, Scale=HUGE), 60, 80),
    "registry": (dict(Svcs='{"s1", "s2"}', Kinds="{1, 3, 4}", Ws='{"alice", "bobby", "carol"}', Chains='{"A", "B"}', CoinLists=REGCOINS, Steps="{1, 172799, 172800}", Times="{}", MaxHeld=999999, Pre="FALSE", Callers='{"gov", "alice"}', MaxWs=3, MaxCs=2, Scale=HUGE), 60, 80),
}
for _m in RICHER:
    for _l in MODELS[_m]["bfs"].values():
        for _c in _l:
            _c["Scale"] = '"1"'
    for _l in MODELS[_m]["sim"].values():
        for _x in _l:
            _x[0]["Scale"] = '"1"'
    BIG[_m][0]["Scale"] = '"1"'
BIG["multisig"][0]["Zeros"] = '{"", "%s"}' % Z60
for _m, (_c, _n, _d) in RICHER.items():
    _c["Scale"] = f'"{_c["Scale"]}"'
    MODELS[_m]["sim"]["quick"].append((_c, _n, _d))
    MODELS[_m]["sim"]["thorough"].append((_c, _n * 20, _d * 2))
for _m, (_c, _n, _d) in BIG.items():
    MODELS[_m]["sim"]["quick"].append((_c, _n, _d))
    MODELS[_m]["sim"]["thorough"].append((_c, _n * 20, _d * 2))

# ---- the worker daemon (ampd)
CALL = '[src |-> %s, dst |-> "%s", da |-> %s, ph |-> %s]'


def calls(t):
    return "{" + ", ".join(CALL % tuple(x.split(":")) for x in t.split()) + "}"


def logs(*receipts):
    """{<<logs of a receipt>>, ...}; a log is index:by:own:kind[:content]"""
    def one(x):
        ix, by, own, k, *c = x.split(":")
        c = CALL % tuple(c) if k == "call" else '[ops |-> "%s"]' % (c[0] if c else "")
        return f'[ix |-> {ix}, by |-> "{by}", own |-> {own}, k |-> "{k}", c |-> {c}]'
    return "{" + ", ".join("<<" + ", ".join(one(x) for x in r.split()) + ">>" for r in receipts) + "}"


LOGS1 = ("", "0:g1:TRUE:call:1:b:1:1", "0:g2:TRUE:call:1:b:1:1", "0:g1:FALSE:call:1:b:1:1", "0:g1:TRUE:none 1:g1:TRUE:call:1:b:1:1")
LOGS2 = ("", "0:g1:TRUE:ops:o1", "0:g2:TRUE:ops:o1", "0:g1:FALSE:ops:o1", "0:g1:TRUE:call:1:b:1:1 1:g1:TRUE:ops:o2")
LOGS3 = LOGS1 + LOGS2 + ("3:g1:TRUE:call:2:b:1:1 4:g1:TRUE:call:1:c:1:1 5:g1:TRUE:call:1:b:2:1", "1:g1:TRUE:call:1:b:1:2 2:g1:TRUE:call:2:b:2:2 10:g1:TRUE:call:1:b:3:1",
                         "0:g1:TRUE:ops:o3 1:g1:TRUE:ops:o4 2:g1:TRUE:ops:o5", "2:g2:TRUE:call:1:b:1:1 2:g1:TRUE:call:1:b:1:1", "7:g1:TRUE:call:1:b:1:1 7:g1:TRUE:call:2:b:1:1",
                         "0:g1:TRUE:call:1:b:1:1 1:g1:TRUE:call:2:c:2:1 2:g1:TRUE:call:2:c:2:2 3:g1:TRUE:ops:o1 4:g1:TRUE:none 11:g1:TRUE:call:2:b:1:2")
PARTS = '{{}, {"w1"}, {"w1", "w2"}, {"w2", "w3"}, {"w1", "w2", "w3"}, {"w2", "w11"}, {"w2", "w3", "w11"}}'
ONEP = '{{"w1", "w2"}}'


def wit(chains='"ethereum"', others="", calls_="1:b:1:1 2:b:1:1", ops="", lg=LOGS1, blks="0, 5, 8", confs="1", gws='"g1"', parts=ONEP, exps="2147483647",
        hs="", nodes="", forms="", keys="", txs="1", ixs="0", maxmsgs=1, maxrecs=1, froms='"ver"', junk="FALSE"):
    return dict(Chains="{%s}" % chains, OtherChains="{%s}" % others, Txs="{%s}" % txs, Ixs="{%s}" % ixs, Calls=calls(calls_), OpSets="{%s}" % ops, Logs=logs(*lg),
                Blks="{%s}" % blks, Confs="{%s}" % confs, Gws="{%s}" % gws, Parts=parts, Exps="{%s}" % exps, Hs="{%s}" % hs, Nodes="{%s}" % nodes,
                Forms="{%s}" % forms, Keys="{%s}" % keys, MaxMsgs=maxmsgs, MaxRecs=maxrecs, Froms="{%s}" % froms, Junks=junk)


WSIM = wit('"ethereum", "other", "third", "sui"', '"fourth"', "1:b:1:1 2:b:1:1 1:c:1:1 1:b:2:1 1:b:1:2 2:c:2:2 2:b:2:2 1:b:3:1", '"o1", "o2", "o3", "o4", "o5"', LOGS3,
           "0, 1, 3, 5, 8, 9, 100", "1, 2, 4, 9, 200, 2147483647", '"g1", "g2"', PARTS, "1, 5, 10, 11, 1000", "1, 4, 5, 9, 10, 11, 999", '"norec", "nofin", "down"',
           '"src", "tx"', '"k1", "k2", "k9", "d1"', "1, 2, 3", "0, 1, 2, 3, 7, 10", 6, 99, '"ver", "mul", "foe"', "TRUE")
MODELS["witness"] = dict(
    mc="MCWitness", bin="daemon",
    bfs={"quick": [wit(ixs="0, 1", nodes='"norec", "nofin", "down", "ok"'),
                   wit('"other"', confs="1, 2, 4, 2147483647"),
                   wit('"sui"', ixs="0, 1", nodes='"norec", "ok"', blks="0, 5"),
                   wit('"sui"', calls_="", ops='"o1", "o2"', lg=LOGS2, ixs="0, 1", nodes='"norec", "ok"', blks="0, 5"),
                   wit('"ethereum", "other"', calls_="", ops='"o1", "o2"', lg=LOGS2, ixs="0, 1", nodes='"norec", "ok"'),
                   wit('"ethereum"', '"other"', "1:b:1:1", lg=LOGS1[1:2], blks="1", gws='"g1", "g2"', parts=PARTS, exps="1, 5, 6", hs="4, 5, 6", keys='"k1", "k2", "k9", "d1"', ops='"o1"',
                       froms='"ver", "mul", "foe"', junk="TRUE")],
         "thorough": [wit('"ethereum", "other", "third", "sui"', ixs="0, 1", nodes='"norec", "nofin", "down", "ok"', confs="1, 3, 6, 2147483647", calls_="1:b:1:1 2:b:1:1 1:c:1:1 1:b:2:1 1:b:1:2", txs="1, 2", maxrecs=2),
                      wit('"ethereum", "other", "third", "sui"', calls_="", ops='"o1", "o2", "o3", "o4", "o5"', lg=LOGS3, ixs="0, 1, 2, 3", nodes='"norec", "nofin", "down", "ok"', confs="1, 3, 6", txs="1, 2", maxrecs=2),
                      wit('"ethereum", "other"', '"third"', "1:b:1:1", lg=LOGS1[1:2], blks="1", gws='"g1", "g2"', parts=PARTS, exps="1, 5, 6, 7, 2147483647", hs="1, 4, 5, 6, 7", keys='"k1", "k2", "k9", "d1"', ops='"o1", "o2"',
                       froms='"ver", "mul", "foe"', junk="TRUE")]},
    sim={"quick": [(WSIM, 320, 80), (dict(WSIM, Chains='{"42"}'), 5, 20)], "thorough": [(WSIM, 8000, 100), (dict(WSIM, Chains='{"42"}'), 100, 20)]})

MODELS["queue"] = dict(
    mc="MCQueue", bin="daemon",
    bfs={"quick": [dict(Cfgs="{[limit |-> 5, cap |-> 100], [limit |-> 3, cap |-> 1]}", Gases="{1, 2, 5}", Waits="{2, 5}", MaxMsgs=5, MaxPush=2, Troubles="FALSE"),
                   dict(Cfgs="{[limit |-> 3, cap |-> 2]}", Gases="{1, 3}", Waits="{5}", MaxMsgs=4, MaxPush=2, Troubles="TRUE")],
         "thorough": [dict(Cfgs="{[limit |-> 5, cap |-> 100], [limit |-> 3, cap |-> 1], [limit |-> 1, cap |-> 2]}", Gases="{1, 2, 3, 5}", Waits="{1, 3, 9}", MaxMsgs=7, MaxPush=2, Troubles="FALSE"),
                      dict(Cfgs="{[limit |-> 4, cap |-> 2]}", Gases="{1, 3, 4}", Waits="{2, 5}", MaxMsgs=6, MaxPush=3, Troubles="TRUE")]},
    sim={t: [(dict(Cfgs="[limit : {1, 2, 5, 20, 100}, cap : {1, 2, 7, 1000}]", Gases="{0, 1, 2, 3, 5, 19, 20, 21, 100}", Waits="{1, 2, 3, 4, 5, 30}", MaxMsgs=999, MaxPush=12, Troubles="TRUE"), n, d)]
         for t, n, d in (("quick", 200, 60), ("thorough", 4000, 100))})
SCFG = lambda adj, price, retries, seq, key, signer: '[adj |-> <<%s>>, price |-> <<%s>>, retries |-> %d, num |-> 7, seq |-> %d, key |-> "%s", signer |-> %s]' % (adj, price, retries, seq, key, signer)
BOND = '[t |-> "Bond", svc |-> "%s", n |-> %d, d |-> "%s"]'
DECL = '[t |-> "Declare", svc |-> "%s", chains |-> <<%s>>]'
CMDS = "{" + ", ".join([BOND % ("validators", 100, "uaxl"), BOND % ("x y", 5, "u-axl"), DECL % ("validators", '"ethereum", "avalanche"'), DECL % ("s", '"b"'),
                        '[t |-> "Register"]', '[t |-> "Address"]']) + "}"
MODELS["sender"] = dict(
    mc="MCSender", bin="daemon",
    bfs={"quick": [dict(Cfgs="{%s, %s}" % (SCFG("5, 4", "3, 8", 1, 3, "", "TRUE"), SCFG("1, 1", "1, 2", 0, 0, "k2", "FALSE")), Gases="{1, 7}", MaxMsgs=2, Lags="{0, 1, 2}",
                        Cmds="{%s}" % ", ".join([BOND % ("v", 2, "uaxl"), '[t |-> "Register"]', '[t |-> "Address"]']), MaxSeq=5)],
         "thorough": [dict(Cfgs="{%s, %s, %s}" % (SCFG("5, 4", "3, 8", 2, 3, "", "TRUE"), SCFG("1, 1", "1, 2", 0, 0, "k2", "FALSE"), SCFG("1, 2", "0, 1", 1, 1, "k1", "TRUE")),
                           Gases="{0, 1, 7}", MaxMsgs=3, Lags="{0, 1, 2, 3}", Cmds=CMDS, MaxSeq=6)]},
    sim={t: [(dict(Cfgs="[adj : {<<1, 1>>, <<5, 4>>, <<3, 2>>, <<1, 2>>}, price : {<<1, 8>>, <<1, 1>>, <<5, 2>>, <<0, 1>>, <<3, 1024>>}, retries : {0, 1, 3, 10}, num : {0, 7, 123456}, seq : {0, 5, 1000}, key : {\"\", \"k1\", \"k2\"}, signer : BOOLEAN]",
                   Gases="{0, 1, 2, 3, 7, 99, 1000, 123457, 999999}", MaxMsgs=24, Lags="{0, 1, 2, 3, 4, 10, 11}", Cmds=CMDS, MaxSeq=99999), n, d)]
         for t, n, d in (("quick", 150, 60), ("thorough", 5000, 100))})
HS3 = '{{"messages"}, {"sets"}, {"signer"}, {"messages", "signer"}, {"messages", "sets", "signer"}}'
MODELS["daemon"] = dict(
    mc="MCDaemon", bin="daemon",
    bfs={"quick": [dict(Marks='{<<"signer">>, <<"messages", "signer", "messages">>}', HSets='{{"signer"}, {"messages", "signer"}}', MaxBlocks=2, MaxKeys=2, Kinds='{"signal", "broken", "fail", "crash"}', Refusing="FALSE"),
                   dict(Marks='{<<"messages", "signer", "messages">>}', HSets='{{"messages", "signer"}}', MaxBlocks=3, MaxKeys=1, Kinds='{"signal", "broken", "crash"}', Refusing="FALSE")],
         "thorough": [dict(Marks='{<<>>, <<"signer">>, <<"messages", "signer", "messages">>}', HSets='{{"signer"}, {"messages", "signer"}, {"sets"}}', MaxBlocks=4, MaxKeys=2, Kinds='{"signal", "broken", "fail", "crash"}', Refusing="TRUE")]},
    sim={t: [(dict(Marks='{<<>>, <<"signer">>, <<"messages">>, <<"sets", "messages">>, <<"signer", "signer">>, <<"messages", "signer", "messages">>, <<"late">>, <<"late", "messages">>, <<"sets", "signer", "sets", "messages", "late", "signer", "messages">>}', HSets=HS3, MaxBlocks=99, MaxKeys=99, Kinds='{"signal", "broken", "fail", "crash"}', Refusing="TRUE"), n, d)]
         for t, n, d in (("quick", 100, 60), ("thorough", 3000, 100))})

# ---- properties: id -> list of (module, invariants, action properties, kinds of steps that must have occurred)
PROPS = {
    "R01": [("router", [], ["Atomic", "R01"], ["Route/ok", "Route/notGateway", "Route/wrongSource", "Route/srcFrozen"])],
    "R02": [("router", [], ["Atomic", "R02", "R02b"], ["Route/ok", "Route/dstFrozen", "Route/nexusNoChain"])],
    "R03": [("router", [], ["Atomic", "R03"], ["Freeze/ok", "Unfreeze/ok", "Route/srcFrozen", "Route/dstFrozen", "Freeze/noChain"])],
    "R04": [("router", ["R04inv"], ["Atomic", "R04"], ["Register/ok", "Upgrade/ok", "Register/gwTaken", "Upgrade/gwTaken", "Register/chainExists", "Register/notGov", "Upgrade/notGov", "Freeze/notAdmin", "Unfreeze/notAdmin"])],
    "G01": [("gateway", [], ["Atomic", "G01"], ["Route/ok", "Route/dupId", "Route/verifierQuery", "Route/routerRefuses"])],
    "G02": [("gateway", ["G02inv"], ["Atomic", "G02"], ["Route/ok", "Get/ok", "Get/notDelivered"])],
    "G03": [("gateway", [], ["Atomic", "G03"], ["Verify/ok", "Verify/dupId", "Verify/verifierRefuses", "FrontVerify/ok", "FrontQuery/ok", "FrontVerify/verifierRefuses"])],
    "V01": [("voting", ["V01"], ["Atomic", "V01b"], ["Vote/ok", "Verify/ok", "End/ok"]),
            ("weights", ["V01w"], ["Atomic"], ["Open/ok", "Vote/ok"])],
    "V02": [("voting", [], ["Atomic", "V02"], ["Vote/ok", "Vote/notParticipant", "Vote/expired", "Vote/wrongSize", "Vote/votedAlready", "Vote/noPoll"]),
            ("weights", [], ["Atomic", "V02w"], ["Vote/ok", "Vote/notParticipant", "Vote/expired", "Vote/wrongSize", "Vote/votedAlready"])],
    "V03": [("voting", [], ["Atomic", "V03"], ["Verify/ok", "Vote/ok", "End/ok"])],
    "V04": [("voting", ["V04"], ["Atomic", "V04b"], ["VerifySet/ok", "VerifySet/alreadyConfirmed", "Vote/ok"])],
    "V05": [("voting", [], ["Atomic", "V05"], ["End/ok", "End/notExpired", "End/endedAlready", "End/noPoll"]),
            ("weights", ["V05g"], ["Atomic", "V05w"], ["Finish/ok", "Finish/done", "Finish/notExpired"])],
    "V06": [("voting", [], ["Atomic", "V06", "V06b"], ["Verify/empty", "Verify/wrongChain", "Verify/badId", "Verify/noWorkers", "VerifySet/noWorkers", "VerifySet/badId"])],
    "M01": [("multisig", [], ["Atomic", "M01"], ["Start/ok", "Start/notAuthorized", "Start/noSet", "Start/badMsg", "Authorize/ok", "Unauthorize/ok", "Authorize/notGov"])],
    "M02": [("multisig", ["M02inv"], ["Atomic", "M02"], ["Submit/ok", "Submit/badSignature", "Submit/notMember", "Submit/duplicate", "Submit/noSession"])],
    "M03": [("multisig", ["M03inv"], ["Atomic", "M03"], ["Submit/ok", "Submit/closed"])],
    "M04": [("multisig", [], ["Atomic", "M04"], ["RegisterKey/ok", "RegisterKey/badKey", "RegisterSet/ok"])],
    "M05": [("multisig", [], ["Atomic", "M05"], ["Submit/ok", "Submit/duplicate", "Submit/closed"])],
    "W01": [("rewards", ["W01inv"], ["Atomic", "W01"], ["Add/ok", "Add/wrongCoins", "Distribute/ok", "Distribute/insufficient"])],
    "W02": [("rewards", [], ["Atomic", "W02"], ["Distribute/ok", "Distribute/nothing"])],
    "W03": [("rewards", [], ["Atomic", "W03"], ["Record/ok", "Record/noEventId", "Distribute/ok"])],
    "W04": [("rewards", [], ["Atomic", "W04"], ["Params/ok", "Params/notGov", "Params/badParams", "Advance/ok"])],
    "S01": [("registry", ["S01inv"], ["Atomic", "S01"], ["Bond/ok", "Bond/wrongCoins", "Bond/zeroBond", "Unbond/ok", "Claim/ok", "Claim/tooEarly", "Claim/notUnbonding"])],
    "S02": [("registry", ["S02inv"], ["Atomic", "S02"], ["Declare/ok", "Authorize/ok", "Unauthorize/ok", "Bond/ok", "Unbond/ok"])],
    "S03": [("registry", [], ["Atomic", "S03"], ["Register/ok", "Register/notGov", "Register/serviceExists", "Authorize/notGov", "Unauthorize/notGov", "Unbond/notBonded", "Declare/noWorker"])],
    "D01": [("quorum", ["D01", "D01b"], ["Atomic", "D01c"], ["Number/ok", "Fraction/ok", "Compare/ok", "Deploy/ok", "Deploy/threshold", "Open/ok", "Open/nobody", "Open/weight", "Open/overflow", "Vote/ok", "Vote/votedAlready", "Finish/ok"])],
    "D02": [("names", ["D02", "D02b"], ["Atomic", "D02c", "D02d"], ["Register/ok", "Register/badName", "Register/chainExists", "Freeze/ok", "Upgrade/ok", "Route/ok", "Route/badName", "Route/badId", "Route/badAddress", "Route/badHash", "Declare/ok", "Declare/badName", "Put/ok", "Verifier/ok", "Verifier/badName", "Ask/ok", "Ask/wrongChain", "Prover/ok", "Prover/badName", "Sign/ok", "Sign/badName", "FromNexus/ok", "FromNexus/badName", "Text/ok", "Read/ok", "Read/badText", "Api/ok", "Api/badName", "ApiEq/ok", "Eq/ok"])],
    "D03": [("twins", ["V01"], ["Atomic", "V01b", "V02"], ["Verify/ok", "Vote/ok"]),
            ("collide", ["V01"], ["Atomic", "V01b", "V02"], ["Verify/ok"])],
    "N01": [("nexus", [], ["Atomic", "N01"], ["Out/ok", "Out/notRouter", "In/ok", "In/notNexus", "In/noTx"])],
    "P01": [("prover", [], ["Atomic", "P01"], ["Construct/ok", "Construct/unknown", "Construct/foreign", "Construct/noSet", "Construct/notAllowed", "Construct/badAddress"])],
    "P02": [("prover", ["P02inv"], ["Atomic", "P02"], ["Construct/ok", "Sign/ok", "Update/ok"]),
            ("assembly", [], ["Atomic", "P02a"], ["Open/ok", "Open/usedSession", "Ask/ok", "Ask/noSession"])],
    "P03": [("prover", ["P03inv"], ["Atomic", "P03"], ["Update/ok", "Confirm/ok", "Confirm/noPending", "Confirm/notConfirmed", "Update/inProgress"])],
    "P04": [("prover", [], ["Atomic", "P04"], ["Update/ok", "Update/unchanged", "Update/noKey", "Update/noWorkers", "Construct/ok"])],
    "E01": [("system", ["E01inv", "E01live"], ["Atomic", "E01"], ["Route/ok", "Verify/ok", "Vote/ok"])],
    "E02": [("system", ["E02inv"], ["Atomic", "E02"], ["Update/ok", "Confirm/ok", "Sign/ok", "VerifySet/ok"])],
    "E03": [("system", ["E03inv"], ["Atomic", "E03"], ["End/ok", "Sign/ok", "Distribute/ok"])],
    "A01": [("witness", [], ["Atomic", "A01"], ["Msgs/ok", "Set/ok", "Mine/ok", "Grow/ok"])],
    "A02": [("witness", [], ["Atomic", "A02"], ["Msgs/ok", "Set/ok", "Sign/ok", "Junk/ok"])],
    "A03": [("queue", ["Sane"], ["Atomic", "A03"], ["Push/ok", "Wait/ok", "Force/ok", "Close/ok"])],
    "A04": [("daemon", ["Sane"], ["Atomic", "A04"], ["Start/ok", "Wait/ok", "Stop/ok", "Crash/ok", "Trouble/ok", "Tip/ok"])],
    "A05": [("sender", ["Sane"], ["Atomic", "A05"], ["Connect/ok", "Est/ok", "Send/ok", "Cmd/ok", "Other/ok"])],
    "B01": [("batching", ["B01inv"], ["Atomic", "B01"], ["Batch/ok", "Batch/mandatory"])],
}

# ---- tags: module -> [(glob over disagreement keys, properties)]; every matching line counts
#   accept:<request>:<guard>   the code accepts what the guard should refuse
#   reject:<request>           the code refuses what should be accepted
#   out:<request>:<field>      an accepted request has other outputs than specified
#   obs:<request>:<field>      the observable state after an accepted request is not the specified one
TAGS = {
    "router": [
        ("accept:Route:notGateway", ["R01"]),
        ("accept:Route:wrongSource", ["R01"]),
        ("accept:Route:srcFrozen", ["R03"]),
        ("accept:Route:dstFrozen", ["R03", "R02"]),
        ("accept:Route:nexusNoChain", ["R02"]),
        ("reject:Route", ["R02", "R03", "R01"]),
        ("out:Route:*", ["R02"]),
        ("obs:Route:*", ["R04", "R03", "R02", "R01"]),
        ("*:Freeze:*", ["R03"]),
        ("*:Unfreeze:*", ["R03"]),
        ("reject:Freeze", ["R03"]),
        ("reject:Unfreeze", ["R03"]),
        ("accept:Freeze:notAdmin", ["R04"]),
        ("accept:Unfreeze:notAdmin", ["R04"]),
        ("obs:Freeze:chains.*.gw", ["R04"]),
        ("obs:Unfreeze:chains.*.gw", ["R04"]),
        ("obs:Upgrade:chains.*.f*", ["R03"]),
        ("*:Register:*", ["R04"]),
        ("*:Upgrade:*", ["R04"]),
        ("reject:Register", ["R04"]),
        ("reject:Upgrade", ["R04"]),
        ("obs:Init:*", ["R04"]),
    ],
    "gateway": [
        ("accept:Route:*", ["G01"]),
        ("reject:Route", ["G01", "G02"]),
        ("out:Route:router", ["G01"]),
        ("out:Route:failed", ["G01"]),
        ("out:Route:routed", ["G01", "G02"]),
        ("out:Route:verifier", ["G03"]),
        ("obs:Route:*", ["G02"]),
        ("*:Get", ["G02"]),
        ("*:Get:*", ["G02"]),
        ("accept:Verify:*", ["G03"]),
        ("reject:Verify", ["G03"]),
        ("out:Verify:verifier", ["G03"]),
        ("out:Verify:router", ["G01"]),
        ("out:Verify:*", ["G03"]),
        ("obs:Verify:*", ["G02"]),
        ("*:Front*", ["G03"]),
        ("obs:Front*", ["G02"]),
    ],
    "voting": [
        ("accept:Vote:*", ["V02"]),
        ("accept:Vote:notParticipant", ["V01", "V04"]),
        ("accept:Vote:votedAlready", ["V01", "V04"]),
        ("accept:Vote:wrongSize", ["V01"]),
        ("reject:Vote", ["V02"]),
        ("out:Vote:*", ["V02"]),
        ("out:Vote:sent", ["V05"]),
        ("obs:Vote:ver", ["V01", "V03", "V02"]),
        ("obs:Vote:sets", ["V04", "V02"]),
        ("accept:Verify:*", ["V06"]),
        ("accept:VerifySet:*", ["V06", "V04"]),
        ("accept:VerifySet:alreadyConfirmed", ["V04"]),
        ("reject:Verify", ["V03", "V06", "V01"]),
        ("reject:VerifySet", ["V04", "V06"]),
        ("out:Verify:*", ["V03"]),
        ("out:Verify:before", ["V01"]),
        ("out:Verify:started*", ["V03", "V06", "V01"]),
        ("out:VerifySet:*", ["V04", "V06"]),
        ("*:End:*", ["V05"]),
        ("*:End", ["V05"]),
        ("obs:*:ver", ["V01", "V03"]),
        ("obs:*:sets", ["V04"]),
    ],
    "multisig": [
        ("*:Start:*", ["M01"]),
        ("reject:Start", ["M01"]),
        ("out:Start:set", ["M04"]),
        ("out:Start:keys*", ["M04"]),
        ("*:Authorize*", ["M01"]),
        ("*:Unauthorize*", ["M01"]),
        ("accept:Submit:closed", ["M03", "M02"]),
        ("accept:Submit:duplicate", ["M03", "M05"]),
        ("accept:Submit:*", ["M02"]),
        ("reject:Submit", ["M02", "M03"]),
        ("out:Submit:submitted", ["M02"]),
        ("out:Submit:completed", ["M03"]),
        ("out:Submit:rewards", ["M05"]),
        ("obs:*:sessions*", ["M02", "M03"]),
        ("obs:Start:sessions*", ["M01", "M04"]),
        ("obs:RegisterKey:sessions*", ["M04"]),
        ("obs:RegisterSet:sessions*", ["M04"]),
        ("obs:*:sets", ["M04"]),
        ("obs:*:keys", ["M04"]),
        ("*:RegisterKey:*", ["M04"]),
        ("reject:RegisterKey", ["M04"]),
        ("*:RegisterSet:*", ["M04"]),
        ("reject:RegisterSet", ["M04"]),
    ],
    "rewards": [
        ("*:Add:*", ["W01"]),
        ("reject:Add", ["W01"]),
        ("accept:Distribute:nothing", ["W02", "W04"]),
        ("accept:Distribute:insufficient", ["W01", "W03"]),
        ("reject:Distribute", ["W01", "W02", "W03", "W04"]),
        ("out:Distribute:*", ["W01", "W02", "W03", "W04"]),
        ("obs:*:held", ["W01"]),
        ("obs:*:swallowed", ["W01"]),
        ("obs:*:paid", ["W01"]),
        ("obs:Distribute:*", ["W01", "W02", "W03", "W04"]),
        ("*:Record:*", ["W03"]),
        ("reject:Record", ["W03"]),
        ("*:Params:*", ["W04"]),
        ("reject:Params", ["W04"]),
    ],
    "registry": [
        ("*:Bond:*", ["S01"]),
        ("accept:Bond:*", ["S01", "S03"]),
        ("obs:Bond:active*", ["S02"]),
        ("reject:Bond", ["S01", "S03"]),
        ("*:Claim:*", ["S01", "S03"]),
        ("reject:Claim", ["S01", "S03"]),
        ("accept:Unbond:*", ["S03", "S01"]),
        ("reject:Unbond", ["S03", "S01"]),
        ("obs:*:held", ["S01"]),
        ("obs:*:spent", ["S01"]),
        ("obs:*:wk*", ["S03", "S01"]),
        ("obs:*:svc*", ["S03"]),
        ("obs:*:active*", ["S02"]),
        ("obs:*orize:wk*", ["S03", "S02"]),
        ("*:Register:*", ["S03"]),
        ("reject:Register", ["S03"]),
        ("accept:*orize:*", ["S03"]),
        ("reject:*orize", ["S03", "S02"]),
        ("*:Declare*", ["S02", "S03"]),
        ("accept:Declare:*", ["S03", "S02"]),
        ("reject:Declare", ["S02", "S03"]),
    ],
    "system": [
        ("*:Verify*", ["E01"]), ("*:Vote*", ["E01", "E02"]), ("*:Route*", ["E01"]), ("reject:Route", ["E01"]), ("*:NexusIn*", ["E01"]),
        ("*:VerifySet*", ["E02"]), ("*:Construct*", ["E01", "E02"]), ("*:Update*", ["E02"]), ("*:Confirm*", ["E02"]), ("*:Sign*", ["E02"]),
        ("obs:*:cur", ["E02"]), ("obs:*:proofs*", ["E02", "E01"]), ("obs:*:box*", ["E01"]), ("obs:*:ver", ["E01"]), ("obs:*:active*", ["E01", "E02"]),
        ("*:End*", ["E03"]), ("*:Add*", ["E03"]), ("*:Distribute*", ["E03"]), ("obs:*:paid", ["E03"]), ("obs:*:held", ["E03"]), ("obs:Sign:paid", ["E03"]),
        ("obs:Init*", ["E01", "E02", "E03"]),
    ],
    "twins": [("*", ["D03"])],
    "collide": [("*", ["D03"])],
    "quorum": [("*", ["D01"])],
    "assembly": [("*", ["P02"])],
    "weights": [("accept:Vote:*", ["V02"]), ("reject:Vote", ["V02"]), ("*:Finish", ["V05"]), ("*:Finish:*", ["V05"]), ("obs:*:poll.good", ["V05"]),
                ("obs:*:poll.winners*", ["V01"]), ("obs:*:poll.weights*", ["V01"]), ("obs:*:poll.quorum*", ["V01"]), ("*:Open*", ["V01"]),
                ("obs:Vote:*", ["V02", "V01"]), ("obs:*:poll.done", ["V05"]), ("*:Number*", []), ("*:Fraction*", []), ("*:Compare*", []), ("*:Deploy*", [])],
    "names": [("*", ["D02"])],
    "witness": [("out:Msgs:votes*", ["A01"]), ("out:Set:votes*", ["A01"]), ("out:Sign:*", ["A02"]), ("*:Junk:*", ["A02"]), ("out:Msgs:n", ["A01", "A02"]), ("out:Set:n", ["A01", "A02"]),
                ("out:Msgs:failed", ["A01", "A02"]), ("out:Set:failed", ["A01", "A02"]), ("out:Msgs:to", ["A02"]), ("out:Msgs:poll", ["A02"]), ("out:Set:to", ["A02"]), ("out:Set:poll", ["A02"]),
                ("out:*:panic", ["A01", "A02"])],
    "queue": [("*", ["A03"])],
    "daemon": [("*", ["A04"])],
    "sender": [("*", ["A05"])],
    "nexus": [("*", ["N01"])],
    "batching": [("*", ["B01"])],
    "prover": [
        ("accept:Construct:noWorkers", ["P04"]),
        ("accept:Construct:noKey", ["P04"]),
        ("accept:Construct:inProgress", ["P03"]),
        ("accept:Construct:*", ["P01"]),
        ("reject:Construct", ["P01", "P03", "P04"]),
        ("out:Construct:set*", ["P01", "P02"]),
        ("out:Construct:content.ws", ["P04", "P01"]),
        ("out:Construct:*", ["P01"]),
        ("accept:Update:inProgress", ["P03"]),
        ("accept:Update:*", ["P04"]),
        ("reject:Update", ["P03", "P04"]),
        ("out:Update:*", ["P03", "P04"]),
        ("*:Confirm:*", ["P03"]),
        ("reject:Confirm", ["P03"]),
        ("obs:*:cur", ["P03", "P04"]),
        ("obs:*:proofs*", ["P02"]),
        ("obs:*:proofs.ids", ["P01"]),
        ("obs:*:proofs.msgs", ["P01"]),
        ("obs:*:proofs.ws", ["P01", "P04"]),
        ("obs:Construct:proofs*", ["P01"]),
        ("obs:Update:proofs*", ["P04", "P03"]),
        ("*:Sign:*", ["P02"]),
        ("reject:Sign", ["P02"]),
    ],
}
