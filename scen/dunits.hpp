#ifdef UNIT_INT
D_INT(X)
#endif
#ifdef UNIT_REAL
D_REAL(X)
#endif
#ifdef UNIT_NORM
D_NORM(X)
#endif
#ifdef UNIT_BIN
D_BIN(X)
#endif
#ifdef UNIT_BIH
D_BIH(X)
#endif
#ifdef UNIT_GAM
D_GAM(X)
#endif
#ifdef UNIT_GAM2
D_GAM2(X)
#endif
#ifdef UNIT_GAM3
D_GAM3(X)
#endif
#ifdef UNIT_LST
D_LST(X)
#endif
#ifdef UNIT_LST2
D_LST2(X)
#endif
#ifdef UNIT_DISC
D_DISC(X)
#endif
#ifdef UNIT_INTD
D_INTD(X)
#endif
