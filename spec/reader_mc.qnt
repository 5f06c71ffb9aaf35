/// Small-scope state machine of the element data reader (C12): a file is written paragraph by paragraph, in the order of
/// the proton numbers, and then read line by line for one target element.
module reader_mc {
  const PARAGRAPHS: int
  const ZS: Set[int]

  /// abundance: 0 blank, 1 exact (no uncertainty), 2 with uncertainty
  type Par = { z: int, a: int, ab: int }
  var file: List[Par]
  var target: int
  /// line that is read next; each paragraph has the lines: number, symbol, mass number, mass, composition, other
  var pos: int
  /// what the reader knows
  var cur: Par
  var out: List[Par]
  var done: bool

  pure val NOTHING: Par = { z: 0, a: 0, ab: 0 }
  pure def wanted(f: List[Par], z: int): List[Par] = f.foldl([], (acc, p) => if (p.z == z) acc.append(p) else acc)
  pure def follows(f: List[Par], p: Par): bool = {
    val n = f.length()
    if (n == 0) true
    else if (f[n - 1].z < p.z) true
    else if (f[n - 1].z > p.z) false
    else f[n - 1].a < p.a
  }

  action init = all { file' = [], target' = 0, pos' = 0, cur' = NOTHING, out' = [], done' = false }
  action write = all {
    target == 0,
    file.length() < PARAGRAPHS,
    nondet z = ZS.oneOf()
    nondet a = Set(1, 2).oneOf()
    nondet ab = Set(0, 1, 2).oneOf()
    val p = { z: z, a: a, ab: ab }
    all { follows(file, p), file' = file.append(p), target' = 0, pos' = 0, cur' = cur, out' = out, done' = done }
  }
  action open = all {
    target == 0,
    nondet z = ZS.oneOf()
    target' = z,
    file' = file, pos' = 0, cur' = cur, out' = out, done' = false,
  }
  pure def readLine(c: Par, p: Par, line: int): Par =
    if (line == 0) { ...c, z: p.z } else if (line == 2) { ...c, a: p.a } else if (line == 4) { ...c, ab: p.ab } else c
  action read = all {
    target > 0,
    not(done),
    pos < 6 * file.length(),
    file' = file,
    target' = target,
    pos' = pos + 1,
    cur' = readLine(cur, file[pos / 6], pos % 6),
    out' = if (pos % 6 == 4 and cur.z == target) out.append({ ...cur, ab: file[pos / 6].ab }) else out,
    done' = false,
  }
  /// at the end of the file, or as soon as the proton number exceeds the target
  action close = all {
    target > 0,
    not(done),
    if (pos == 6 * file.length()) true else cur.z > target,
    file' = file, target' = target, pos' = pos, cur' = cur, out' = out, done' = true,
  }
  action step = any { write, open, read, close }

  val inv = and {
    done implies out == wanted(file, target),
    // what has been read is always the beginning of what is wanted
    out.length() <= wanted(file, target).length(),
    0.to(out.length() - 1).forall(i => out[i] == wanted(file, target)[i]),
  }
}
module reader_mcq { import reader_mc(PARAGRAPHS = 2, ZS = Set(1, 2, 3)).* }
module reader_mct { import reader_mc(PARAGRAPHS = 3, ZS = Set(1, 2, 3)).* }
