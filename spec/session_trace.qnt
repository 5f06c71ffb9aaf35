/// Trace specification of sessions (C15): the answer to a query depends on the query alone.
/// A query is identified by a key (object parameters, method, arguments), an answer by a fingerprint of its content.
module session_trace {
  import num.* from "./num"

  /// answers that were seen, by query
  type St = int -> int
  pure val initSt: St = Map()

  /// 1 key answer process: answer to a query
  pure def onAnswer(st: St, ev: int): { st: St, err: str } = {
    val k = raw(ev, 1)
    val a = raw(ev, 2)
    if (nf(ev) != 4) { st: st, err: "trace: wrong number of fields" }
    else if (not(st.keys().contains(k))) { st: st.put(k, a), err: "" }
    else if (st.get(k) == a) { st: st, err: "" }
    else { st: st, err: "a repeated query returned a different result" }
  }
  /// 2 before after: arguments of a query
  /// 3 before after: global settings around a query
  /// 4 before after: a result that the caller did not touch, when it was returned and at the end of the session
  pure def same(st: St, ev: int, err: str): { st: St, err: str } =
    if (nf(ev) != 3) { st: st, err: "trace: wrong number of fields" }
    else { st: st, err: if (raw(ev, 1) == raw(ev, 2)) "" else err }

  pure def accept(st: St, ev: int): { st: St, err: str } = {
    val k = ifl(ev, 0)
    if (k == 1) onAnswer(st, ev)
    else if (k == 2) same(st, ev, "a query modified its arguments")
    else if (k == 3) same(st, ev, "a query changed global settings")
    else if (k == 4) same(st, ev, "a result changed after it had been returned")
    else { st: st, err: "trace: unknown event" }
  }
}
