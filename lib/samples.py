"""Layouts the tools printed at the pinned commit, used as starting points of workloads (never as an oracle)."""

POWER_OF_2 = {
    (10, 4): [
        '>> >> >> >v ^> >> >> >> >> >>',
        '>> s> u> vv n^ ^> >v n> >> >>',
        '>> S> u> vv n> >^ uv ^> >> >>',
        '>> s> u> v> >v n> u> ^^ n> >>',
        '>> S> >> u> v> >> s> >^ n> >>',
        '>> s> >> >v u^ ^> S> >> >> >>',
        '>> S> u> v> >^ ^^ nv n> >> >>',
        '>> >> >> >> >> >^ v> >> >> >>',
    ],
    (10, 6): [
        '>> >> >v .  ^> >> >> >> >> >>',
        '>> u> uv .  ^^ ^> >v n> s> >>',
        '>> >> >> s> >^ n^ v> >> S> >>',
        '>> u> ^> S> >> >> >v n> s> >>',
        '>> >> >^ ^> u> .  vv n> S> >>',
        '>> >> >> >^ ^> u> vv n> s> >>',
        '>> u> nv ^> >^ u^ vv n> S> >>',
        '>> u> v> >^ n> >^ v> >> >> >>',
    ],
    (10, 8): [
        '>> u> ^> >v n> >v ^> >> >> >>',
        '>> u> n^ v> >v uv n^ n> s> >>',
        '>> >> >> >v v> >> >> >> S> >>',
        '>> u> .  v> >v .  n> s> >> >>',
        '>> u> ^> >v vv nv n> S> >> >>',
        '>> >> >^ Sv sv v> >> >> s> >>',
        '>> u> u^ vv v> >v u^ n> S> >>',
        '>> >> >^ v> u> v> >^ .  n> >>',
    ],
    (11, 4): [
        '>> >> >> >v <v << << ^< ^> >> >>',
        '>> s> u> vv uv n> u> ^^ n^ n> >>',
        '>> S> u> v> >> >v n> >^ ^> >> >>',
        '>> s> >> >> u> v> s> >> >^ n> >>',
        '>> S> >> >> u> ^> S> >> >v n> >>',
        '>> s> u> ^> >> >^ n> >v v> >> >>',
        '>> S> u> ^^ nv n> u> vv u^ n> >>',
        '>> >> >> >^ v> u> .  v> >^ n> >>',
    ],
    (11, 6): [
        '>> u> ^> >> >v n> >v ^> >> >> >>',
        '>> u> n^ .  vv .  uv ^^ n> s> >>',
        '>> >> >v .  v> u> .  ^^ n> S> >>',
        '>> u> v> >> >v .  .  ^^ n> s> >>',
        '>> u> ^> >v vv ^> >> >^ n> S> >>',
        '>> >> >^ Sv sv ^^ nv ^> >> s> >>',
        '>> u> u^ vv v> >^ v> >^ n> S> >>',
        '>> >> >^ v> >> >> >> >> >> >> >>',
    ],
    (12, 4): [
        '>> u> ^> >v .  n> >v ^> >> >> >> >>',
        '>> u> n^ vv n> u> uv ^^ n> s> >> >>',
        '>> >> >v v> u> ^> >> >^ n> S> >> >>',
        '>> u> v> >v .  ^^ n> >> >> >> s> >>',
        '>> >> u> v> s> >^ nv n> >> >> S> >>',
        '>> u> u^ n> S> >v v> s> >> >> >> >>',
        '>> >> >^ ^> u> vv n> S> >> >> >> >>',
        '>> >> >> >^ .  v> >> >> >> >> >> >>',
    ],
}

INTERCHANGE = {
    (6, 4): [
        ['>> >> >> >> >> >>', '>> >v .  ^> >> >>', 'u> vv n> >^ ^> >>', 'u> v> >> >> >^ n>'],
        ['>> >> >> >> >> >>', '>> >> >v .  ^> >>', '>> >v v> u> ^^ n>', 'u> v> >> >> >^ n>'],
        ['u> ^> >> >> >v n>', '>> >^ ^> u> vv n>', 'u> .  ^^ .  vv n>', '>> >> >^ .  v> >>'],
        ['u> ^> >> >> >v n>', '>> >^ ^> u> vv n>', '>> >> >^ .  v> >>', '>> >> >> >> >> >>'],
    ],
    (7, 4): [
        ['u> ^> >> >> >v n> >>', '>> >^ ^> u> v> >v n>', '>> u> ^^ n> >v v> >>', '>> u> <^ << v< n> >>'],
        ['u> .  <v << ^< n> >>', '>> >v v> u> ^^ n> >>', 'u> v> >v n> >^ ^> >>', '>> u> v> >> >> >^ n>'],
        ['>> >> >v .  ^> >> >>', '>> u> vv .  ^^ n> >>', '>> >v v> u> ^^ n> >>', 'u> v> >> >> >^ n> >>'],
        ['>> u> ^> >> >> >v n>', 'u> ^> >^ n> >v v> >>', '>> >^ ^> u> vv .  n>', '>> u> <^ << v< n> >>'],
    ],
    (7, 6): [
        ['u> .  .  ^> >v n> >>', '>> >> >v n^ v> >> >>', '>> u> v> >v .  .  n>', 'u> .  .  v> >v n> >>', '>> >> >v u^ v> >> >>', '>> u> v> >^ .  .  n>'],
        ['u> .  ^> >v .  n> >>', '>> >> >^ uv ^> >> >>', 'u> .  .  ^> >^ n> >>', '>> u> ^> >^ .  .  n>', '>> >> >^ nv ^> >> >>', '>> u> .  v> >^ .  n>'],
        ['u> ^> >> >v .  n> >>', '>> >^ .  uv ^> >> >>', '>> u> .  ^> >^ .  n>', 'u> .  ^> >^ .  n> >>', '>> >> >^ nv .  ^> >>', '>> u> .  v> >> >^ n>'],
        ['u> .  .  ^> >v n> >>', '>> >> >v n^ uv ^> >>', '>> u> uv ^> >> >^ n>', 'u> ^> >> >^ nv n> >>', '>> >^ nv u^ v> >> >>', '>> u> v> >^ .  .  n>'],
        ['>> u> <v << ^< .  n>', 'u> .  uv n> >^ ^> >>', '>> >> >> >> u> ^^ n>', '>> u> nv .  .  ^^ n>', '>> >v v> u> ^> >^ n>', 'u> v> >> >> >^ n> >>'],
        ['>> u> .  ^> >v n> >>', '>> >> >> >^ uv ^> >>', '>> u> ^> >> >> >^ n>', 'u> ^> >^ .  .  n> >>', '>> >^ ^> u> nv n> >>', 'u> .  <^ << v< n> >>'],
        ['u> .  .  ^> >v n> >>', '>> >> >v n^ v> >> >>', '>> u> v> >v .  .  n>', 'u> .  .  v> >v n> >>', '>> >> >v u^ v> >> >>', '>> u> v> >^ .  .  n>'],
        ['u> .  ^> >v .  n> >>', '>> >> >^ uv .  ^> >>', '>> u> .  ^> >> >^ n>', 'u> ^> >> >^ .  n> >>', '>> >^ .  nv ^> >> >>', '>> u> .  v> >^ .  n>'],
        ['>> >> >v ^> >> >> >>', '>> u> vv n^ .  .  n>', 'u> .  v> >v .  n> >>', '>> u> .  v> >v .  n>', 'u> .  .  u^ vv n> >>', '>> >> >> >^ v> >> >>'],
        ['>> u> .  ^> >> >v n>', '>> >> >v n^ .  v> >>', '>> u> v> >v .  .  n>', 'u> .  .  v> >v n> >>', '>> >v .  u^ v> >> >>', 'u> v> >> >^ .  n> >>'],
        ['u> ^> >> >> >v n> >>', '>> >^ .  .  uv ^> >>', '>> >> u> .  ^> >^ n>', 'u> .  ^> >> >^ n> >>', '>> >> >^ .  nv ^> >>', '>> >> u> .  v> >^ n>'],
        ['>> >> >v ^> >> >> >>', 'u> .  uv ^^ n> >> >>', '>> >> u> ^^ n> >> >>', '>> u> nv <^ ^< .  n>', '>> >v v> u> ^^ .  n>', 'u> v> >> >> >^ n> >>'],
    ],
    (8, 6): [
        ['u> ^> >> >v .  n> >> >>', '>> >^ .  uv ^> >> >> >>', 'u> ^> >> >> >^ n> >> >>', '>> >^ .  nv .  ^> >> >>', '>> >> >v v> u> ^^ n> >>', '>> u> v> >> >> >^ n> >>'],
        ['>> u> .  <v << ^< n> >>', '>> >> u> uv n> >^ ^> >>', '>> >> >> u> .  .  ^^ n>', '>> >> >> u> .  ^> >^ n>', 'u> .  .  nv n> >^ ^> >>', '>> >> u> v> >> >> >^ n>'],
        ['u> ^> >> >v .  n> >> >>', 'u> n^ .  vv n> >v ^> >>', '>> >> >v v> u> vv n^ n>', 'u> u^ vv n> >v v> >> >>', '>> >^ v> u> vv .  u^ n>', '>> >> u> .  v> >> >^ n>'],
        ['>> >> u> ^> >> >> >v n>', 'u> ^> >> >^ n> >v v> >>', 'u> ^^ n> >v <v v< ^> >>', '>> >^ <v v< v> u> ^^ n>', '>> >v v> u> ^> >> >^ n>', 'u> v> >> >> >^ n> >> >>'],
        ['>> u> ^> >> >> >v n> >>', '>> >> >^ ^> u> v> >v n>', '>> >v .  ^^ ^> u> vv n>', 'u> vv n> >^ ^^ .  v> >>', 'u> v> >v n> >^ ^> >> >>', '>> u> v> >> >> >^ n> >>'],
        ['u> ^> >v .  n> >v ^> >>', 'u> n^ vv n> u> vv n^ n>', '>> >v v> u> .  v> >v n>', 'u> v> >v .  n> >v v> >>', 'u> u^ vv n> u> vv u^ n>', '>> >^ v> u> .  v> >^ n>'],
        ['>> >v .  .  ^> >> >> >>', 'u> vv .  n> >^ ^> >> >>', 'u> vv .  n> u> n^ .  n>', 'u> v> >> >v n> >> >> >>', '>> >> >v v> u> u^ .  n>', '>> u> v> >> >> >^ n> >>'],
        ['u> ^> >> >> >v n> >> >>', 'u> n^ n> >v vv ^> >> >>', '>> u> <v v< uv ^^ n> >>', 'u> u^ vv n> >> >^ ^> >>', '>> >^ v> u> nv .  ^^ n>', '>> >> u> .  v> >> >^ n>'],
        ['>> >> u> ^> >> >> >v n>', 'u> .  ^> >^ n> >v v> >>', 'u> .  n^ n> u> v> >v n>', '>> >> u> <v << ^< vv n>', '>> >v u^ v> u> ^^ vv n>', 'u> v> >^ .  n> >^ v> >>'],
        ['>> >> u> ^> >> >> >v n>', '>> u> ^> >^ n> >v v> >>', '>> u> n^ n> u> v> >v n>', '>> >> u> <v << ^< vv n>', '>> >v u^ v> u> ^^ vv n>', 'u> v> >^ .  n> >^ v> >>'],
        ['>> >> >> >> >v ^> >> >>', '>> u> .  .  vv ^^ n> >>', '>> >> >> u> vv ^^ n> >>', '>> >> u> <v v< ^^ .  n>', '>> >> u> vv n> >^ ^> >>', '>> >> u> v> >> >> >^ n>'],
        ['>> >> >> >> >v ^> >> >>', '>> >> u> .  vv ^^ .  n>', '>> >> >> u> vv ^^ n> >>', '>> >> u> <v v< ^^ .  n>', '>> >> u> vv n> >^ ^> >>', '>> >> u> v> >> >> >^ n>'],
    ],
    (9, 6): [
        ['>> u> .  .  ^> >v n> >> >>', '>> >> >v .  n^ v> >> >> >>', '>> u> v> >> >v .  n> >> >>', '>> >> u> .  v> >> >v n> >>', '>> >> >> >v u^ .  v> >> >>', '>> >> u> v> >^ .  .  n> >>'],
        ['>> >> >> u> ^> >v .  .  n>', '>> >> >v .  n^ v> >> >> >>', 'u> .  v> >> >v n> >> >> >>', '>> >> >> u> v> >> >v .  n>', '>> >> >> >v u^ .  v> >> >>', 'u> .  .  v> >^ n> >> >> >>'],
        ['>> >> u> .  ^> >v .  n> >>', '>> >> >> >v n^ v> >> >> >>', 'u> .  .  v> >v n> >> >> >>', '>> >> >> u> v> >v .  .  n>', '>> >> >> >v u^ v> >> >> >>', '>> u> .  v> >^ .  n> >> >>'],
        ['>> >> u> ^> >v ^> >v n> >>', '>> >v .  n^ uv n^ v> >> >>', 'u> vv n> u> ^> >> >> >v n>', 'u> v> >> >> >^ n> u> vv n>', '>> >> >v u^ nv u^ .  v> >>', '>> u> v> >^ v> >^ n> >> >>'],
        ['u> ^> >v n> >> u> ^> >v n>', '>> >^ uv .  ^> u> n^ vv n>', '>> >> >> >v n^ ^> u> uv n>', '>> u> nv v> >> >^ n> >> >>', '>> >v v> u> u^ .  u^ nv n>', 'u> v> >> >> >^ n> >^ v> >>'],
        ['>> u> <v << ^< .  n> >> >>', '>> >v v> u> ^^ n> >> >> >>', 'u> vv n> u> ^^ .  .  n> >>', 'u> vv n> u> <^ << ^< .  n>', 'u> v> >> >> >v n> >^ ^> >>', '>> >> >> u> v> >> >> >^ n>'],
        ['>> >> >> u> ^> >> >v .  n>', '>> >> >> >v n^ .  v> >> >>', '>> u> .  v> >v .  n> >> >>', '>> >> u> .  v> >v .  n> >>', '>> >> >v .  u^ v> >> >> >>', 'u> .  v> >> >^ n> >> >> >>'],
        ['>> >> u> .  ^> >v .  n> >>', '>> >> >v .  n^ v> >> >> >>', '>> u> v> >> >v .  n> >> >>', '>> >> u> .  v> >> >v n> >>', '>> >> >> >v u^ .  v> >> >>', '>> u> .  v> >^ .  n> >> >>'],
        ['>> >> >> u> <v << ^< .  n>', 'u> .  .  .  uv n> >^ ^> >>', '>> >> >> u> ^> >> >> >^ n>', 'u> ^> >> >> >^ n> >> >> >>', '>> >^ ^> u> nv .  .  .  n>', 'u> .  <^ << v< n> >> >> >>'],
        ['>> >> u> .  .  ^> >v n> >>', '>> >v .  ^> u> n^ v> >v n>', 'u> v> >v n^ .  n> >v v> >>', '>> >v v> u> .  u^ v> >v n>', 'u> v> >v u^ n> >^ .  v> >>', '>> u> v> >^ .  .  n> >> >>'],
        ['>> u> ^> >> >> >v n> >> >>', '>> u> ^^ n> >v uv .  ^> >>', '>> u> ^^ <v v< n> u> ^^ n>', '>> u> ^^ vv n> u> .  ^^ n>', '>> >> >^ v> u> nv .  ^^ n>', '>> >> >> >> u> v> >> >^ n>'],
        ['>> u> ^> >> >> >v n> >> >>', 'u> .  ^^ n> >v uv .  ^> >>', '>> u> ^^ <v v< n> u> ^^ n>', '>> u> ^^ vv n> u> ^> >^ n>', '>> >> >^ v> u> nv ^^ n> >>', '>> >> >> >> u> v> >^ .  n>'],
        ['u> ^> >> >v .  n> >v ^> >>', 'u> ^^ .  uv n> u> vv ^^ n>', 'u> ^^ .  .  n> u> vv ^^ n>', '>> >^ ^> u> <v << v< ^^ n>', '>> >> >^ nv v> u> ^> >^ n>', '>> >> u> v> >> >> >^ n> >>'],
        ['>> u> ^> >v .  n> >v ^> >>', 'u> ^> >^ uv n> u> vv ^^ n>', 'u> ^^ n> u> .  .  vv ^^ n>', '>> >^ ^> u> <v << v< ^^ n>', '>> >> >^ nv v> u> ^> >^ n>', '>> >> u> v> >> >> >^ n> >>'],
    ],
    (9, 8): [
        ['>> >> >> u> ^> >> >> >v n>', '>> >v ^> u> n^ .  .  vv n>', 'u> vv <^ ^< .  n> u> vv n>', 'u> v> >v <^ ^< n> >v v> >>', '>> >v v> u> <^ ^< v> >v n>', 'u> vv n> u> .  <^ ^< vv n>', 'u> vv .  .  u^ n> >^ v> >>', 'u> v> >> >> >^ n> >> >> >>'],
        ['u> ^> >v n> u> .  <v ^< n>', '>> >^ uv ^> u> .  uv ^^ n>', 'u> ^> >> >^ n> u> ^> >^ n>', 'u> ^^ .  .  .  n> >^ ^> >>', '>> >^ ^> u> .  .  .  ^^ n>', 'u> ^> >^ n> u> ^> >> >^ n>', 'u> ^^ nv .  n> >^ nv ^> >>', 'u> <^ v< .  n> u> v> >^ n>'],
        ['>> u> ^> >> >> >v n> >> >>', 'u> .  ^^ n> >v v> >> >> >>', '>> u> ^^ .  uv .  n> >> >>', 'u> ^> >^ n> >v .  .  ^> >>', '>> >^ .  .  v> u> ^> >^ n>', '>> >> u> .  nv .  ^^ n> >>', '>> >> >> >v v> u> ^^ .  n>', '>> >> u> v> >> >> >^ n> >>'],
        ['>> >> u> ^> >> >> >v n> >>', 'u> .  ^> >^ n> >v v> >> >>', '>> u> ^^ <v << v< n> >> >>', 'u> ^> >^ vv n> >v .  ^> >>', '>> >^ .  v> u> vv ^> >^ n>', '>> >> u> <v << v< ^^ n> >>', '>> >> >v v> u> ^> >^ .  n>', '>> u> v> >> >> >^ n> >> >>'],
        ['>> u> .  ^> >v .  n> >> >>', '>> >> >v n^ v> >> >> >> >>', '>> >v v> u> ^> >> >> >v n>', 'u> uv .  .  n^ n> >v v> >>', '>> u> .  u^ n> >v v> >> >>', 'u> nv n> >^ u^ v> >> >> >>', 'u> v> >v n> >^ ^> >> >> >>', '>> u> v> >> >> >^ n> >> >>'],
        ['>> u> ^> >v .  .  n> >> >>', '>> >v n^ v> u> .  ^> >v n>', 'u> vv n> u> .  .  n^ vv n>', 'u> v> >v .  n> >> >v v> >>', '>> >v v> >> u> .  v> >v n>', 'u> vv u^ .  n> u> u^ vv n>', 'u> v> >^ .  n> >> >^ v> >>', '>> >> >> >> >> >> >> >> >>'],
        ['u> .  ^> >v n> u> ^> >v n>', '>> >> >^ uv ^> u> n^ vv n>', 'u> .  ^> >> >^ n> >v v> >>', 'u> .  n^ nv n> >v v> >> >>', '>> >> >v v> u> uv u^ .  n>', '>> >v v> u> ^> >> >^ .  n>', 'u> vv u^ n> >^ nv ^> >> >>', 'u> v> >^ n> u> v> >^ .  n>'],
        ['>> u> ^> >> >v .  n> >> >>', '>> >v n^ .  v> u> ^> >v n>', 'u> vv .  n> u> .  n^ vv n>', 'u> v> >v .  .  n> >v v> >>', '>> >v v> u> .  .  v> >v n>', 'u> vv u^ .  n> u> .  vv n>', 'u> v> >^ n> >v .  u^ v> >>', '>> >> u> .  v> >> >^ n> >>'],
        ['u> ^> >> >> >v n> >v ^> >>', 'u> n^ n> u> uv <v v< n^ n>', '>> u> ^> >v .  uv n> >> >>', '>> >> >^ uv ^> >> >> >> >>', '>> >> >> >> >^ nv ^> >> >>', '>> >> u> nv .  v> >^ n> >>', 'u> u^ <v v< nv n> u> u^ n>', '>> >^ v> u> v> >> >> >^ n>'],
        ['u> .  <v << ^< n> >> >> >>', '>> >v v> u> n^ .  ^> >v n>', 'u> uv .  .  n> u> ^^ uv n>', 'u> ^> >> >> >v n> >^ ^> >>', '>> >^ ^> u> v> >> >> >^ n>', 'u> nv ^^ n> u> .  .  nv n>', 'u> v> >^ .  u^ n> >v v> >>', '>> >> >> u> <^ << v< .  n>'],
        ['u> ^> >v n> >v .  .  ^> >>', 'u> n^ v> >v uv n> u> n^ n>', '>> >> >v v> u> ^> >v n> >>', '>> >v v> u> ^> >^ uv u^ n>', 'u> v> >v n> >^ ^> u> ^^ n>', 'u> u^ vv n> u> ^^ nv ^^ n>', '>> >^ v> u> nv ^^ v> >^ n>', '>> >> >> u> v> >^ n> >> >>'],
        ['u> ^> >v n> >v .  .  ^> >>', 'u> n^ v> >v uv n> u> n^ n>', '>> >> >v v> u> ^> >v n> >>', '>> >v v> u> ^> >^ uv n> >>', 'u> v> >v .  ^^ n> >> >> >>', 'u> u^ vv n> >^ ^> u> u^ n>', '>> >^ v> u> nv ^^ nv ^^ n>', '>> >> >> u> v> >^ v> >^ n>'],
    ],
    (10, 6): [
        ['>> >> >v ^> >> >> >> >> >> >>', 'u> .  vv ^^ n> u> ^> >v n> >>', 'u> .  vv ^^ n> u> n^ v> >v n>', 'u> <v v< ^^ .  n> >> >v v> >>', 'u> vv n> >^ ^> u> u^ vv n> >>', 'u> v> >> >> >^ n> >^ v> >> >>'],
        ['>> >> >v ^> >> >> >> >> >> >>', 'u> .  vv ^^ n> u> ^> >v n> >>', 'u> .  vv ^^ n> u> n^ v> >v n>', 'u> <v v< ^^ n> >> >> >v v> >>', 'u> vv n> >^ ^> u> u^ vv .  n>', 'u> v> >> >> >^ n> >^ v> >> >>'],
    ],
    (10, 8): [
        ['>> >> >> u> .  ^> >> >v n> >>', '>> >> >v ^> u> n^ .  v> >v n>', 'u> .  vv ^^ n> u> .  .  vv n>', '>> u> vv <^ ^< u^ n> >v v> >>', '>> >v v> u> n^ <^ ^< vv n> >>', 'u> vv .  .  n> u> ^^ vv .  n>', 'u> v> >v .  u^ n> >^ v> >> >>', '>> u> v> >> >^ .  n> >> >> >>'],
        ['>> >> u> ^> >> >> >v n> >> >>', 'u> .  ^> >^ n> >v v> >> >> >>', '>> u> ^^ .  <v v< n> >> >> >>', 'u> .  ^^ <v v< n> >v ^> >> >>', '>> >> >^ v> u> <v v< ^^ .  n>', '>> >> >> u> <v v< .  ^^ n> >>', '>> >> >> >v v> u> ^> >^ .  n>', '>> >> u> v> >> >> >^ n> >> >>'],
        ['>> >> >> >> >> >> >> >> >> >>', '>> >> >v ^> u> .  ^> >v .  n>', 'u> .  vv n^ n> u> n^ v> >v n>', 'u> .  vv .  .  n> >> >v v> >>', '>> >v v> >> u> .  .  vv .  n>', 'u> v> >v u^ n> u> u^ vv .  n>', 'u> .  v> >^ .  n> >^ v> >> >>', '>> >> >> >> >> >> >> >> >> >>'],
        ['>> >> >> u> ^> >> >> >v n> >>', '>> >> >v .  n^ ^> u> vv .  n>', 'u> .  vv n> u> n^ .  vv .  n>', 'u> .  v> >v .  n> >v v> >> >>', '>> >> >v v> u> .  v> >v .  n>', 'u> .  vv .  u^ n> u> vv .  n>', 'u> .  vv n> >^ u^ .  v> >> >>', '>> u> v> >> >> >^ n> >> >> >>'],
        ['>> u> .  ^> >v n> u> ^> >v n>', '>> u> .  ^^ uv n> >v n^ v> >>', '>> >> >v n^ ^> u> v> >v .  n>', 'u> .  vv n> >^ ^> u> vv .  n>', '>> >v v> >> u> n^ .  v> >v n>', 'u> v> >v u^ nv n> u> u^ vv n>', '>> u> v> >^ vv u^ n> >^ v> >>', '>> >> >> u> v> >^ .  n> >> >>'],
        ['>> u> ^> >> >> >v n> >> >> >>', '>> >v n^ .  .  v> >> >> >> >>', 'u> uv n> >> u> ^> >> >> >v n>', '>> u> u^ ^> >> >^ n> >v v> >>', '>> >> >^ ^^ ^> u> .  v> >v n>', '>> >> >> >^ ^^ .  ^> u> vv n>', 'u> nv ^> >> >^ n> >^ .  v> >>', 'u> v> >^ n> >> >> >> >> >> >>'],
        ['>> >> >> u> .  ^> >> >v n> >>', '>> >> >v ^> u> ^^ .  uv .  n>', 'u> .  uv ^^ n> >^ ^> >> >> >>', 'u> .  .  ^^ n> u> ^^ .  .  n>', 'u> .  .  ^^ n> u> ^^ .  .  n>', '>> >> >> >^ ^> u> ^^ nv .  n>', 'u> .  nv .  ^^ n> >^ v> >> >>', '>> u> v> >> >^ .  n> >> >> >>'],
        ['>> >> >> >> u> ^> >> >> >v n>', '>> >> >> >> >> >^ ^> u> uv n>', '>> >v .  ^> >> >> >^ ^> >> >>', 'u> uv ^> >^ n> u> .  ^^ .  n>', 'u> .  ^^ .  n> u> ^> >^ nv n>', '>> >> >^ ^> >> >> >^ .  v> >>', 'u> nv n> >^ ^> >> >> >> >> >>', 'u> v> >> >> >^ n> >> >> >> >>'],
        ['u> .  .  <v ^< n> >> >v ^> >>', 'u> ^> >v vv n^ n> u> uv ^^ n>', '>> >^ uv v> u> .  ^> >> >^ n>', '>> >> u> .  u^ ^> >^ n> >> >>', '>> >> u> ^> >^ n^ .  n> >> >>', 'u> ^> >> >^ .  n> >v nv ^> >>', 'u> ^^ nv n> u> u^ vv v> >^ n>', '>> >^ v> >> u> <^ v< .  .  n>'],
        ['u> <v << ^< n> u> .  ^> >v n>', 'u> uv n> >^ ^> u> .  ^^ uv n>', '>> u> ^> >> >^ .  n> >^ ^> >>', 'u> .  ^^ .  .  n> u> ^> >^ n>', 'u> ^> >^ n> u> .  .  ^^ .  n>', '>> >^ ^> u> .  ^> >> >^ n> >>', 'u> nv ^^ .  n> >^ ^> u> nv n>', 'u> v> >^ .  n> u> <^ << v< n>'],
        ['>> >> >> >v .  ^> >> >> >> >>', '>> >> u> vv n> >^ ^> >> >> >>', '>> >> u> v> >> >v n^ n> >> >>', '>> >v .  ^> u> v> >> >> >v n>', 'u> uv n> >^ .  ^> u> .  vv n>', '>> >> u> ^> >> >^ n> >v v> >>', 'u> nv n> >^ ^> u> u^ vv .  n>', 'u> v> >> >> >^ n> >^ v> >> >>'],
        ['>> >> u> <v << ^< n> >> >> >>', '>> u> <v v< n> >^ .  ^> >> >>', '>> >v v> u> ^> >> >> >^ n> >>', 'u> uv ^> >> >^ n> >> >v ^> >>', 'u> ^> >^ .  n> u> .  uv ^^ n>', '>> >^ ^> >> >> u> ^> >> >^ n>', 'u> nv ^^ .  .  n> >^ nv ^> >>', 'u> v> >^ n> >> >> u> v> >^ n>'],
    ],
    (11, 6): [
        ['>> >v ^> >> >> >> u> ^> >v n> >>', 'u> vv ^^ n> >> u> ^> >^ uv .  n>', 'u> vv ^^ .  n> >> >^ ^> >> >> >>', 'u> vv <^ << ^< n> >> >^ nv ^> >>', 'u> v> >v n> >^ ^> u> .  v> >^ n>', '>> u> v> >> >> >^ n> >> >> >> >>'],
        ['>> >v ^> >> >> >> u> ^> >v .  n>', 'u> vv ^^ n> >> u> ^> >^ uv n> >>', 'u> vv ^^ .  n> >> >^ ^> >> >> >>', 'u> vv <^ << ^< n> >> >^ nv ^> >>', 'u> v> >v n> >^ ^> u> .  v> >^ n>', '>> u> v> >> >> >^ n> >> >> >> >>'],
        ['>> >> u> ^> >> >> >v n> >v ^> >>', 'u> .  .  n^ n> u> v> >v uv ^^ n>', 'u> <v << << ^< n> u> v> >> >^ n>', 'u> vv n> u> <^ << << ^< n> >> >>', 'u> v> >v u^ .  n> u> ^^ nv .  n>', '>> u> v> >^ .  .  n> >^ v> >> >>'],
        ['>> >> u> ^> >> >> >v n> >v ^> >>', 'u> .  .  n^ n> u> v> >v uv ^^ n>', '>> u> <v << ^< n> u> v> >> >^ n>', '>> >v v> u> <^ << << ^< n> >> >>', 'u> v> >v u^ .  n> u> ^^ nv .  n>', '>> u> v> >^ .  .  n> >^ v> >> >>'],
    ],
}

# interchanges that come close to one of the detours left out, with the limit they need
NEAR_INTERCHANGE = [
    (6, [  # a0
        'u> ^> >v .  n> >> >> >>',
        '>> >^ uv ^> >v ^> >> >>',
        '>> >> >> >^ uv ^^ ^> >>',
        'u> ^> >> >> >> >^ ^^ n>',
        'u> ^^ nv .  nv .  ^^ n>',
        '>> >^ v> u> v> >> >^ n>',
    ]),
    (6, [  # a0
        'u> ^> >> >> >> >> >v n>',
        '>> >^ ^> >v ^> u> vv n>',
        'u> ^> >^ uv <^ ^< vv n>',
        'u> ^^ n> >> u> ^^ vv n>',
        '>> >^ .  nv .  ^^ v> >>',
        'u> .  .  v> >> >^ .  n>',
    ]),
    (4, [  # a0
        '>> >> u> .  ^> >> >v n>',
        '>> >v ^> u> ^^ .  uv n>',
        'u> uv ^^ n> >^ ^> >> >>',
        '>> >> >^ ^> u> ^^ nv n>',
        'u> nv .  ^^ n> >^ v> >>',
        'u> v> >> >^ .  n> >> >>',
    ]),
    (6, [  # a1
        '>> >v .  .  ^> >> >>',
        'u> vv .  .  ^^ .  n>',
        'u> vv n> >> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a1
        '>> >> >> >> >> >> >>',
        '>> >v .  .  ^> >> >>',
        'u> vv .  n> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a1
        '>> >v .  .  ^> >> >>',
        'u> vv .  .  ^^ n> >>',
        'u> vv n> >> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a2
        '>> >v ^> u> <v << ^< n>',
        'u> vv <^ ^< uv .  ^^ n>',
        'u> vv .  n^ .  .  ^^ n>',
        'u> v> >> >> >> >> >^ n>',
        '>> >> >v u^ nv .  ^> >>',
        'u> .  v> >^ v> >> >^ n>',
    ]),
    (6, [  # a2
        '>> u> <v << ^< .  n> >>',
        '>> >v uv .  ^^ ^> >> >>',
        'u> vv .  .  ^^ ^^ n> >>',
        'u> v> >> >> >^ ^^ .  n>',
        '>> u> nv n> >> >^ ^> >>',
        '>> u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a2
        '>> u> <v << ^< .  .  n>',
        '>> >v v> u> <^ << ^< n>',
        'u> vv .  .  .  .  ^^ n>',
        'u> v> >v .  .  .  ^^ n>',
        '>> >v v> u> .  .  ^^ n>',
        'u> v> >> >> >> >> >^ n>',
    ]),
    (6, [  # a2
        '>> >v <v << << << ^< ^> >>',
        'u> vv uv n> u> .  ^^ n^ n>',
        'u> v> >> >v .  .  ^^ n> >>',
        '>> u> nv v> >> >> >^ u^ n>',
        '>> >v v> >> >> u> ^> >^ n>',
        'u> v> >> >> >> >> >^ n> >>',
    ]),
    (6, [  # a3
        '>> u> <v << ^< n> >>',
        '>> >v v> u> ^^ .  n>',
        'u> vv .  n> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a3
        'u> .  <v << ^< .  n>',
        '>> >v v> u> ^^ .  n>',
        'u> vv .  n> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a3
        '>> u> <v << ^< n> >>',
        '>> >v v> u> ^^ n> >>',
        'u> vv .  n> >^ ^> >>',
        'u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a4
        'u> .  <v << ^< n> u> ^> >> >v n>',
        '>> >v v> u> n^ .  ^> >^ .  uv n>',
        'u> v> >> >> >> >> >^ n> >> >> >>',
        '>> u> <v << << << << ^< n> >> >>',
        '>> >v v> u> u^ .  .  <^ ^< nv n>',
        'u> v> >> >> >^ .  n> u> <^ v< n>',
    ]),
    (4, [  # a4
        '>> u> ^> >> >> >v n> >> >> >>',
        '>> >> >^ ^> u> uv n> >> >> >>',
        '>> >> u> n^ ^> >> >v n> >> >>',
        '>> >> >> >> >^ .  uv ^> >> >>',
        '>> >> >> u> .  nv .  ^^ n> >>',
        '>> u> .  .  <v v< n> >^ ^> >>',
        '>> >v .  u^ v> u> nv .  ^^ n>',
        'u> v> >> >^ n> u> v> >> >^ n>',
    ]),
    (4, [  # a4
        '>> >> >> >> u> ^> >> >> >v n>',
        '>> u> ^> >v n> >^ ^> u> vv n>',
        'u> ^> >^ uv n> >v ^^ .  v> >>',
        '>> >^ ^> >> u> vv <^ << ^< n>',
        'u> .  n^ n> >v v> u> .  n^ n>',
        '>> >> u> .  v> >v .  n> >> >>',
        '>> u> u^ nv .  vv n> u> u^ n>',
        '>> >> >^ v> u> v> >> >> >^ n>',
    ]),
    (6, [  # a4
        '>> >v ^> u> ^> >> >> >v n> >>',
        'u> uv ^^ n> >^ ^> u> v> >v n>',
        '>> >> >^ ^> u> <^ << ^< vv n>',
        'u> ^> >> >^ n> u> .  n^ vv n>',
        'u> ^^ <v << ^< .  n> u> uv n>',
        '>> >^ v> u> ^^ .  .  n> >> >>',
        'u> nv .  .  ^^ n> u> u^ nv n>',
        'u> v> >> >> >^ .  n> >^ v> >>',
    ]),
    (6, [  # a5
        '>> >> >v ^> >> >v ^> >>',
        'u> .  uv ^^ .  uv ^^ n>',
        'u> ^> >> >^ ^> >> >^ n>',
        'u> ^^ .  .  ^^ n> >> >>',
        'u> ^^ nv .  ^^ nv .  n>',
        '>> >^ v> u> <^ v< n> >>',
    ]),
    (6, [  # a5
        '>> >v ^> >> >> u> ^> >v n>',
        'u> uv ^^ n> u> .  n^ vv n>',
        '>> u> <^ << << << << v< n>',
        'u> nv .  n> u> .  u^ .  n>',
        'u> v> >> >v .  n> >^ ^> >>',
        '>> >> u> v> >> >> >> >^ n>',
    ]),
    (6, [  # a6
        '>> >> >v .  ^> >> >> >>',
        'u> .  uv .  n^ .  n> >>',
        'u> ^> >> >> >> >v .  n>',
        'u> ^^ .  .  u^ vv n> >>',
        'u> ^^ nv .  <^ v< .  n>',
        '>> >^ v> >> >> >> >> >>',
    ]),
    (6, [  # a6
        '>> >> >v .  ^> >> >> >> >> >>',
        '>> >v v> u> ^^ n> >v ^> >> >>',
        'u> vv n> u> <^ << v< ^^ .  n>',
        'u> v> >> >v n> u> .  ^^ .  n>',
        '>> >> u> vv .  .  n> >^ ^> >>',
        '>> >> u> v> >> >> >> >> >^ n>',
    ]),
    (6, [  # a6
        'u> ^> >> >v ^> >v .  n> >> >> >>',
        'u> n^ .  vv ^^ uv n> >v ^> >> >>',
        '>> >> u> vv <^ << << v< ^^ n> >>',
        '>> >> >v v> u> .  .  .  ^^ .  n>',
        'u> u^ vv .  .  nv .  n> >^ ^> >>',
        '>> >^ v> >> u> v> >> >> >> >^ n>',
    ]),
    (4, [  # a6
        'u> ^> >v n> >> >v ^> >> >>',
        'u> ^^ uv n> u> uv ^^ .  n>',
        'u> ^^ n> >> >> u> ^^ .  n>',
        '>> >^ ^> u> .  .  <^ ^< n>',
        'u> ^> >^ n> u> nv .  n^ n>',
        'u> ^^ nv n> >v v> >> >> >>',
        '>> >^ v> u> v> >> >v u^ n>',
        '>> >> >> >> u> .  v> >^ n>',
    ]),
    (6, [  # a7
        '>> >> >> >> >v .  ^> >>',
        'u> .  .  .  uv .  ^^ n>',
        'u> .  ^> >> >> >> >^ n>',
        '>> u> ^^ .  .  .  n> >>',
        '>> >> >^ .  nv .  ^> >>',
        '>> >> >> u> v> >> >^ n>',
    ]),
    (4, [  # a7
        '>> >> >v .  ^> >> >> >>',
        'u> .  uv .  ^^ n> >> >>',
        'u> ^> >> >> >^ n> >> >>',
        'u> ^^ .  .  .  n> >> >>',
        '>> >^ nv .  ^> >> >> >>',
        '>> u> v> >> >^ n> >> >>',
    ]),
    (4, [  # a7
        '>> >> >> >> >v .  ^> >>',
        '>> >> u> .  uv .  ^^ n>',
        '>> >> u> ^> >> >> >^ n>',
        '>> >> u> ^^ .  n> >> >>',
        '>> >> >> >^ nv .  ^> >>',
        '>> >> u> .  v> >> >^ n>',
    ]),
    (4, [  # p0
        '>> >> >> u> ^> >> >> >v n>',
        '>> >> >v .  ^^ ^> u> vv n>',
        '>> >v v> u> ^^ <^ << v< n>',
        'u> v> >> >> >^ n> >> >> >>',
    ]),
    (6, [  # p0
        '>> u> ^> >> >> >> >> >v n>',
        'u> ^> >^ n> >v ^> u> vv n>',
        '>> >^ ^> u> vv <^ << v< n>',
        '>> u> <^ << v< n> >> >> >>',
    ]),
    (6, [  # p0
        '>> u> .  .  ^> >> >> >v n>',
        '>> >> >v .  ^^ ^> u> vv n>',
        '>> >v v> u> ^^ <^ << v< n>',
        'u> v> >> >> >^ n> >> >> >>',
    ]),
    (4, [  # p3
        'u> ^> >> >> >v n> >> >> >>',
        'u> ^^ n> u> v> >> >> >v n>',
        'u> <^ << << ^< n> >v v> >>',
        '>> >> >> u> <^ << v< n> >>',
    ]),
    (6, [  # p3
        '>> u> ^> >> >> >> >v n>',
        '>> >> >^ .  ^> u> uv n>',
        'u> ^> >> >> >^ .  .  n>',
        'u> ^^ n> >v .  ^> >> >>',
        'u> <^ << v< .  ^^ nv n>',
        '>> >> >> >> >> >^ v> >>',
    ]),
    (6, [  # p3
        'u> ^> >v .  n> >> >> >>',
        '>> >^ uv ^> u> <v ^< n>',
        '>> >> u> <^ << v< n^ n>',
        'u> ^> >> >> >> >v n> >>',
        'u> ^^ nv .  .  vv u^ n>',
        '>> >^ v> u> .  v> >^ n>',
    ]),
    (4, [  # p6
        '>> >v ^> >> >> >v ^> >>',
        'u> vv ^^ n> u> uv ^^ n>',
        'u> uv ^^ n> u> ^> >^ n>',
        '>> u> ^^ .  ^> >^ n> >>',
        'u> nv ^^ n> >^ nv ^> >>',
        'u> v> >^ n> u> v> >^ n>',
    ]),
    (6, [  # p6
        'u> ^> >v .  .  <v ^< n>',
        '>> >^ uv ^> u> vv n^ n>',
        '>> >> u> <^ << v< n> >>',
        'u> ^> >> >> >> >v u^ n>',
        '>> >^ nv ^> u> v> >^ n>',
        'u> .  v> >^ n> >> >> >>',
    ]),
    (6, [  # p6
        '>> >> >> >v .  .  ^> >>',
        '>> >> u> v> >> >v ^^ n>',
        '>> >> >v ^> u> vv ^^ n>',
        '>> u> vv <^ << v< ^^ n>',
        '>> >v v> >> >> u> ^^ n>',
        'u> v> >> >> >> >> >^ n>',
    ]),
    (4, [  # p8
        '>> >> >> >> >v ^> >> >>',
        '>> >> >> u> vv ^^ .  n>',
        '>> >> >> u> vv ^^ .  n>',
        '>> >> >> u> vv <^ ^< n>',
        '>> >> >> >v v> u> ^^ n>',
        '>> >> u> v> >> >> >^ n>',
    ]),
    (6, [  # p8
        '>> >> >v ^> u> ^> >v n>',
        'u> .  vv ^^ .  n^ vv n>',
        'u> .  vv <^ << << v< n>',
        'u> .  v> >> >> >> >v n>',
        '>> >> >> u> .  u^ vv n>',
        '>> >> >> >> >> >^ v> >>',
    ]),
    (6, [  # p8
        '>> u> ^> >v .  .  .  n>',
        '>> u> ^^ uv n> >v ^> >>',
        'u> .  <^ << << v< ^^ n>',
        'u> ^> >> >> >> >> >^ n>',
        '>> >^ .  nv ^> >> >> >>',
        '>> >> u> v> >^ n> >> >>',
    ]),
]
