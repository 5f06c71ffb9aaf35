/// Lines of text. A line is an integer whose bytes are the characters, the first character in the lowest byte,
/// without the final newline. An event carries a line in fields of seven bytes each.
module text {
  import num.* from "./num"

  pure def lineOf(ev: int, k: int): int =
    range(k, nf(ev)).foldl(0, (a, i) => a + ifl(ev, i) * 2^(56 * (i - k)))
  pure def chr(t: int, i: int): int = (t / 256^i) % 256
  /// number of characters (a line has no zero bytes)
  pure def len(t: int): int = (bits(t % 2^2000) + 7) / 8
  pure def drop(t: int, n: int): int = t / 256^n
  pure def take(t: int, n: int): int = t % 256^n
  pure def startsWith(t: int, p: int, n: int): bool = take(t, n) == p
  pure def isDigit(c: int): bool = c >= 48 and c <= 57
  pure val SPACE: int = 32

  /// text without leading and trailing spaces
  pure def strip(t: int): int = {
    val a = range(0, len(t)).foldl({ t: t, on: true }, (s, i) =>
      if (s.on and s.t % 256 == SPACE) { t: s.t / 256, on: true } else { t: s.t, on: false }).t
    range(0, len(a)).foldl({ t: a, on: true }, (s, i) => {
      val l = len(s.t)
      if (s.on and l > 0 and chr(s.t, l - 1) == SPACE) { t: take(s.t, l - 1), on: true } else { t: s.t, on: false }
    }).t
  }

  /// position of the first character c, or the length of the text
  pure def find(t: int, c: int): int = {
    val n = len(t)
    range(0, n).foldl(n, (a, i) => if (a == n and chr(t, i) == c) i else a)
  }

  type Decimal = { ok: bool, digits: int, scale: int, exp: int, neg: bool, stage: int, count: int }
  /// decimal number: digits, an optional point, and an optional exponent; the whole text must match
  pure def scan(t: int): Decimal =
    range(0, len(t)).foldl({ ok: true, digits: 0, scale: 0, exp: 0, neg: false, stage: 0, count: 0 }, (d, i) => {
      val c = chr(t, i)
      if (isDigit(c)) {
        if (d.stage == 0) { ...d, digits: 10 * d.digits + c - 48, count: d.count + 1 }
        else if (d.stage == 1) { ...d, digits: 10 * d.digits + c - 48, scale: d.scale + 1, count: d.count + 1 }
        else { ...d, exp: 10 * d.exp + c - 48, stage: 3 }
      }
      else if (c == 46 and d.stage == 0) { ...d, stage: 1 }
      else if ((c == 69 or c == 101) and d.stage <= 1 and d.count > 0) { ...d, stage: 2 }
      else if ((c == 43 or c == 45) and d.stage == 2) { ...d, neg: c == 45, stage: 3 }
      else { ...d, ok: false }
    })
  pure def isNumber(t: int): bool = {
    val d = scan(t)
    d.ok and d.count > 0 and d.stage != 2
  }
  /// value of a decimal number as a fixed-point number
  pure def number(t: int): int = {
    val d = scan(t)
    val e = (if (d.neg) -d.exp else d.exp) - d.scale
    if (e >= 0) d.digits * 10^e * ONE else d.digits * ONE / 10^(-e)
  }
  pure def integer(t: int): int = number(t) / ONE
}
