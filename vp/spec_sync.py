"""Contracts for nora_ssh/src/sync.rs, the lock on a connection's write half."""
from .assemble import Contract

CONTRACTS, SP, EXTRA = {}, [], {'types': {}}
Y = 'nora_ssh::sync::'
RE = [(r'core ?:: ?(task|cell) ?:: ?', r'crate::ext::\1::'), (r'self ?: ?core ?:: ?pin ?:: ?Pin ?< ?& ?mut Self ?>', '&mut self')]
EXTRA['retype:nora_ssh::sync'] = RE
EXTRA['broadcast:nora_ssh::sync'] = ['crate::ext::world::group_world']
OPS = ('.try_borrow_mut', '.take', '.replace', '.set', '.wake', '.wake_by_ref', 'Waker::wake', 'Waker::wake_by_ref', 'Cell::new', 'RefCell::new')
MX, FU, GD = Y + 'LocalMutex', Y + 'LocalMutexGuardFuture', Y + 'LocalMutexGuard'
I, Q = f'${{{MX}.0}}', f'${{{MX}.1}}'          # the cell with the value, the cell with the waiters
FI, GI, GL = f'${{{FU}.0}}', f'${{{GD}.0}}', f'${{{GD}.1}}'
T = ['C23']


def C(key, **kw):
    CONTRACTS[key] = Contract(key, world=OPS, retype=RE, safety=['C23'], **kw)


OTHERS = '(forall|c: int| c != {q} ==> #[trigger] final(vp_w).queue(c) == old(vp_w).queue(c))'
C(Y + 'LocalMutex::new', ens=[(T, f'!final(vp_w).held().contains(r.{I}.id()) && final(vp_w).queue(r.{Q}.id()).len() == 0')])
C(Y + 'LocalMutex::lock', ens=[(T, f'*r.{FI} == *self && *final(vp_w) == *old(vp_w)')])
m = f'old(self).{FI}'
q = f'{m}.{Q}.id()'
C(Y + '<LocalMutexGuardFuture<T> as Future>::poll', ens=[
    # whoever gets the lock got it while nobody had it, and has it now
    (T, f'r matches crate::ext::task::Poll::Ready(g) ==> !old(vp_w).held().contains({m}.{I}.id()) && final(vp_w).held() == old(vp_w).held().insert({m}.{I}.id()) '
        f'&& *g.{GI} == *{m} && g.{GL}.of() == {m}.{I}.id()'),
    # whoever does not is registered, nobody is forgotten and nobody else gets it
    (T, f'r is Pending ==> old(vp_w).held().contains({m}.{I}.id()) && final(vp_w).held() == old(vp_w).held() && final(vp_w).queue({q}).contains(old($1).me())'),
    (T, f'forall|i: int| 0 <= i < old(vp_w).queue({q}).len() ==> final(vp_w).queue({q}).contains(#[trigger] old(vp_w).queue({q})[i])'),
    (T, 'final(vp_w).asleep() == old(vp_w).asleep() && ' + OTHERS.format(q=q)),
    (T, f'*final(self).{FI} == *{m}')],
  post='')
g = f'old(self).{GI}'
q = f'{g}.{Q}.id()'
C(Y + '<LocalMutexGuard<T> as Drop>::drop', ens=[
    (T, f'forall|k: crate::ext::task::Waker| #[trigger] final(vp_w).asleep().contains(k) ==> old(vp_w).asleep().contains(k) && !old(vp_w).queue({q}).contains(k)'),
    (T, 'final(vp_w).held() == old(vp_w).held() && ' + OTHERS.format(q=q)),
    (T, f'*final(self).{GI} == *{g} && final(self).{GL} == old(self).{GL}')],
  loops={1: 'invariant vp_w.held() == old(vp_w).held(), ' + OTHERS.format(q=q).replace('final(vp_w)', 'vp_w') + f', *self == *old(self), '
            f'forall|k: crate::ext::task::Waker| #[trigger] vp_w.asleep().contains(k) ==> old(vp_w).asleep().contains(k) && (!old(vp_w).queue({q}).contains(k) || vp_s@.contains(k)) decreases vp_s.len()'})

SP.append("""
// ---- the lock as a history: held, registered wakers, and the tasks that were told to wait and have not been woken since
pub struct Lk { pub held: bool, pub queue: Set<int>, pub waiting: Set<int> }
/// no waiter is forgotten: everyone still waiting is registered, and then somebody holds the lock
pub open spec fn lk_inv(s: Lk) -> bool { (forall|t: int| #[trigger] s.waiting.contains(t) ==> s.queue.contains(t)) && (s.waiting.len() > 0 || (exists|t: int| s.waiting.contains(t)) ==> s.held) }
/// what poll's contract says
pub open spec fn lk_poll(s: Lk, t: int, ready: bool, n: Lk) -> bool {
    (forall|x: int| #[trigger] s.queue.contains(x) ==> n.queue.contains(x))
    && (ready ==> !s.held && n.held && n.waiting == s.waiting.remove(t))
    && (!ready ==> s.held && n.held && n.queue.contains(t) && n.waiting == s.waiting.insert(t))
}
/// what drop's contract says, and then the value's borrow ends
pub open spec fn lk_drop(s: Lk, n: Lk) -> bool {
    s.held && !n.held && (forall|x: int| #[trigger] n.waiting.contains(x) ==> s.waiting.contains(x) && !s.queue.contains(x))
}
/// a task gives up
pub open spec fn lk_quit(s: Lk, t: int, n: Lk) -> bool { n.held == s.held && n.queue == s.queue && n.waiting == s.waiting.remove(t) }
pub open spec fn lk_step(s: Lk, n: Lk) -> bool { lk_drop(s, n) || exists|t: int| (lk_poll(s, t, true, n) || lk_poll(s, t, false, n) || lk_quit(s, t, n)) }
pub proof fn lemma_lock_step(s: Lk, n: Lk)
    requires lk_inv(s), lk_step(s, n)
    ensures lk_inv(n)
{
    if lk_drop(s, n) {
        assert forall|t: int| n.waiting.contains(t) implies false by { assert(s.waiting.contains(t)); }
        assert(n.waiting =~= Set::<int>::empty());
    } else {
        let t = choose|t: int| (lk_poll(s, t, true, n) || lk_poll(s, t, false, n) || lk_quit(s, t, n));
        if lk_quit(s, t, n) {
            assert forall|x: int| n.waiting.contains(x) implies n.queue.contains(x) by { assert(s.waiting.contains(x)); }
            if exists|x: int| n.waiting.contains(x) { let x = choose|x: int| n.waiting.contains(x); assert(s.waiting.contains(x)); }
            assert(n.waiting.len() > 0 ==> n.held) by { if !s.held { assert(s.waiting =~= Set::<int>::empty()) by { assert forall|x: int| s.waiting.contains(x) implies false by {} } assert(n.waiting =~= Set::<int>::empty()); } }
        }
    }
}
/// after any history the invariant holds
pub proof fn lemma_lock(h: Seq<Lk>)
    requires h.len() > 0, !h[0].held, h[0].waiting == Set::<int>::empty(), forall|i: int| 0 <= i < h.len() - 1 ==> lk_step(#[trigger] h[i], h[i + 1])
    ensures lk_inv(h.last())
    decreases h.len()
{
    if h.len() > 1 {
        lemma_lock(h.drop_last());
        assert(h.drop_last().last() == h[h.len() - 2]);
        assert(lk_step(h[h.len() - 2], h[h.len() - 2 + 1]));
        lemma_lock_step(h[h.len() - 2], h.last());
    }
}
""")
