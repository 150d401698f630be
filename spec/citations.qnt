// -*- mode: Bluespec; -*-
/**
 * What each component cites, and what a report about a model contains.
 */
module citations {
  // components: 0 KeplerianOrbit, 1 TTVOrbit, 2 SimpleTransitOrbit, 3 LimbDarkLightCurve,
  // 4 SecondaryEclipseLightCurve, 5 quad_limb_dark, 6 kipping13, 7 vaneylen19, 8 angle, unit_disk,
  // 9 impact_parameter; 20 + k: the citations registered by hand under name k
  pure val COMPONENTS = 10
  // keys: 0 joss 1 zenodo 2 arviz 3 astropy13 4 astropy18 5 luger18 6 agol20 7 kipping13 8 kipping13b
  // 9 vaneylen19 10 foremanmackey17 11 foremanmackey18 12 espinoza18 13 rebound 14 reboundias15 15 reboundx
  pure val KEYS = 16
  pure def cites(comp: int): Set[int] =
    if (comp == 0 or comp == 1) Set(3, 4)
    else if (comp == 3 or comp == 4) Set(5, 6)
    else if (comp == 5) Set(7)
    else if (comp == 6) Set(8)
    else if (comp == 7) Set(9)
    // astropy starry celerite espinoza18 kipping13 kipping13b vaneylen19 rebound reboundias15 reboundx
    else if (comp >= 20) [Set(3, 4), Set(5, 6), Set(10, 11), Set(12), Set(7), Set(8), Set(9), Set(13), Set(14), Set(15)].nth(comp - 20)
    else Set()
  // random variables need a model
  pure def needsModel(comp: int): bool = comp >= 5 and comp < 20
  // can the model be given as an argument
  pure def takesModel(comp: int): bool = Set(0, 1, 3, 4, 6, 7).contains(comp) or comp >= 20
  // where: 0 outside of every model, 1 2 inside it, 3 4 outside but given
  // model 1 or 2, 5 inside 1 but given 2, 6 inside 2 but given 1
  pure def target(place: int): int = [0, 1, 2, 1, 2, 2, 1].nth(place)
  pure def possible(comp: int, place: int): bool = and {
    not(needsModel(comp) and place == 0),
    takesModel(comp) or place < 3
  }
  // a report: none without registered components, otherwise everything that is
  // cited, and always exoplanet (0, 1) and arviz (2)
  pure def report(ks: Set[int], registered: bool): Set[int] =
    if (registered) Set(0, 1, 2).union(ks) else Set()
  // does building it register anything, be it nothing new
  pure def registers(comp: int): bool = cites(comp) != Set()
}
