/// Small-scope state machine of repeated Compton scattering (C10). Energies are measured in rest energies of the charged
/// particle. The inverse energy of the photon is an integer w in units of 1/2; scattering by an angle theta with
/// 1 - cos(theta) = s / 2 raises it by s, so all energies and cross sections along a path are exact fractions.
module compton_mc {
  const MAX: int
  const START: Set[int]
  const MASSES: Set[int]

  var mass: int
  var w0: int
  var w: int
  /// last scattering: s, polarization (0 unpolarized, 1 - 3: squared cosine of the azimuthal angle 1, 1/2, 0)
  var s: int
  var pol: int
  var n: int
  /// solid-angle differential cross section of the last scattering, in units of half the scale factor
  var cs: { num: int, den: int }

  /// sin(theta)^2 in quarters
  pure def sin2(t: int): int = t * (4 - t)
  /// k^2 (k + 1/k - p), with k = a / b, the ratio of final and initial energy, and p in eighths
  pure def kn(a: int, b: int, p: int): { num: int, den: int } = {
    { num: a * (8 * a * a + 8 * b * b - p * a * b), den: 8 * b * b * b }
  }
  /// weight of sin(theta)^2, times two: 2 cos(phi)^2 for a polarized photon, 1 for an unpolarized one
  pure def weight(p: int): int = if (p == 0) 2 else if (p == 1) 4 else if (p == 2) 2 else 0

  action init = {
    nondet e = START.oneOf()
    nondet m = MASSES.oneOf()
    all { mass' = m, w0' = e, w' = e, s' = 0, pol' = 0, n' = 0, cs' = { num: 0, den: 1 } }
  }
  action scatter = all {
    n < MAX,
    nondet t = 0.to(4).oneOf()
    nondet p = 0.to(3).oneOf()
    all {
      w' = w + t,
      s' = t,
      pol' = p,
      n' = n + 1,
      cs' = kn(w, w + t, sin2(t) * weight(p)),
      mass' = mass,
      w0' = w0,
    }
  }
  action step = scatter

  val a = w - s
  val unpolarized = kn(a, w, sin2(s) * 2)
  val inv = and {
    // energy never grows, and loses at most what backscattering takes
    w >= w0,
    w <= w0 + 4 * n,
    // no negative cross sections; forward scattering has the Thomson value
    cs.num >= 0,
    (n > 0 and s == 0 and (pol == 0 or pol == 2)) implies cs.num == 2 * cs.den,
    // the average over two perpendicular polarizations is the unpolarized value
    kn(a, w, sin2(s) * 4).num + kn(a, w, 0).num == 2 * unpolarized.num,
    (n > 0 and pol == 0) implies cs == unpolarized,
    // back-to-back scattering does not depend on the polarization
    (n > 0 and (s == 0 or s == 4)) implies cs == unpolarized,
  }
}
module compton_mcq { import compton_mc(MAX = 3, START = Set(1, 2, 5, 9), MASSES = Set(0, 1, 2)).* }
module compton_mct { import compton_mc(MAX = 6, START = Set(1, 2, 3, 4, 5, 7, 9, 14, 20, 31), MASSES = Set(0, 1, 2, 3, 4)).* }
