"""C11: LTI launches are accepted only after every check"""

import ast

from ..guards import (EventCheck, exc_of, facts_eq, family, flows, has, is_attr,
                      is_call, knows, parts, strip, unver)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

MOD = 'imsbltiv1p0'
NORMAL = {'lower', 'strip', 'str', 'decode', 'to_text'}
# what a launch may only do for a verified consumer
ACTS = ('set_launch_group', 'set_launch_resource', 'set_launch_user',
        'set_launch_permissions', 'new_visit', 'set_session',
        'session_page', 'get_context', 'get_resource', 'get_user')
NEEDED = ('set_launch_resource', 'set_launch_user',
          'set_launch_permissions', 'set_session')


def param_value(t, name):
    """t is the launch parameter of this name"""
    t = strip(t, NORMAL)
    return (is_call(t, 'get') and t.args[3] and
            is_const(t.args[3][0], name)) or (
        t.op == 'sub' and is_const(t.args[1], name))


def named(t, name):
    return t.op == 'glob' and getattr(
        t.args[0], 'qual', '').endswith('.' + name)


class Launch(EventCheck):

    """ToolProvider.launch"""

    def __init__(self, rep, consts):
        EventCheck.__init__(self, rep)
        self.consts = consts

    def isconst(self, t, name):
        t = strip(t, NORMAL)
        return named(t, name) or (
            name in self.consts and is_const(t, self.consts[name]))

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        inst = func.short
        valid = any(p is True and has(t, lambda x: is_call(
            x, 'validate_request')) and t.op != 'cmp'
            for t, p in st.facts.items())
        self.note('accept', inst + ':signature', valid, "a launch is "
                  "accepted although the request was not found valid by "
                  "the OAuth endpoint", w, st.trace)
        mt = any((param_value(a, 'lti_message_type') and
                  self.isconst(b, 'LTI_MESSAGE_TYPE')) or
                 (param_value(b, 'lti_message_type') and
                  self.isconst(a, 'LTI_MESSAGE_TYPE'))
                 for a, b in facts_eq(st))
        self.note('accept', inst + ':type', mt, "a launch is accepted "
                  "whatever its message type", w, st.trace)
        mv = any((param_value(a, 'lti_version') and
                  self.isconst(b, 'LTI_VERSION')) or
                 (param_value(b, 'lti_version') and
                  self.isconst(a, 'LTI_VERSION'))
                 for a, b in facts_eq(st))
        self.note('accept', inst + ':version', mv, "a launch is accepted "
                  "whatever its version", w, st.trace)
        ok = False
        if payload is not None and payload.op == 'tuple' and \
                len(payload.args[0]) == 2:
            c, ps = payload.args[0]
            if is_call(c, 'lookup_consumer') and c.args[3] and \
                    param_value(c.args[3][0], 'oauth_consumer_key'):
                k = strip(c.args[3][0], NORMAL)
                src = k.args[0] if k.op == 'sub' else k.args[2]
                ok = unver(src) is unver(ps) and has(ps, lambda x: x.op == 'param' and
                                       x.args[0] == func.params()[-1])
        self.note('accept', inst + ':consumer', ok, "the consumer returned "
                  "is not the one whose key was in the signed parameters, "
                  "or the parameters are not those of the signed body", w)

    def call(self, it, st, ci):
        if ci.name == 'validate_request':
            ps = self.func.params()
            want = {p for p in ps[1:]}
            got = {strip(a).args[0] for a in list(ci.args) + list(
                ci.kw.values()) if strip(a).op == 'param'}
            self.note('accept', self.func.short + ':request',
                      want <= got, "the OAuth check does not cover the "
                      "method, address, headers and body of the request",
                      ci.where)
        return None


class Nonce(EventCheck):

    """validate_timestamp_and_nonce"""

    def after_call(self, it, st, ci, term):
        if ci.name in ('update_entity', 'insert_entity') and ci.args:
            st = self.put(st, ('stored', ci.args[0], ci.name))
        if ci.name == 'set_from_value' and ci.recv is not None and \
                ci.recv.op == 'sub' and is_const(
                    ci.recv.args[1], 'LastSeen') and ci.args:
            st = self.put(st, ('seen', ci.recv.args[0], ci.args[0]))
        if ci.name == 'set_key' and ci.recv is not None and ci.args:
            st = self.put(st, ('key', ci.recv, ci.args[0]))
        return st

    def call(self, it, st, ci):
        if ci.name in ('update_entity', 'insert_entity') and ci.args:
            e = ci.args[0]
            now = [v for _, b, v in self.events(st, 'seen') if b is e]
            ok = any(is_call(strip(v), 'time', 'now', 'from_now_utc')
                     for v in now)
            self.note('nonce', self.func.short + ':' + ci.name, ok,
                      "a nonce is recorded without the current time",
                      ci.where)
            if ci.name == 'insert_entity':
                ok = any(b is e and self.mixed(k)
                         for _, b, k in self.events(st, 'key'))
                self.note('nonce', self.func.short + ':key', ok,
                          "a nonce is recorded under a key that is not "
                          "made of the client key and the nonce", ci.where)
        return None

    def mixed(self, k):
        ps = self.func.params()
        return all(has(k, lambda x, n=n: x is T('param', n))
                   for n in (ps[1], ps[3])) and has(
            k, lambda x: x.op == 'call' and x.args[0].startswith('sha'))

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        if is_const(payload) and not payload.args[0]:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        stored = self.events(st, 'stored')
        self.note('nonce', func.short + ':recorded', bool(stored),
                  "a nonce is accepted without being recorded", w, st.trace)
        for _, e, how in stored:
            if how != 'update_entity':
                continue
            ok = self.mixed(e)
            self.note('nonce', func.short + ':lookup', ok,
                      "the nonce looked up is not that of this client", w)
            old = False
            for t, p in st.facts.items():
                if t.op == 'cmp' and t.args[0] == '<':
                    lo, hi = t.args[1], t.args[2]
                    if p is True and self.window(lo, hi, e):
                        old = True
                    if p is False and self.window(hi, lo, e):
                        old = True
            self.note('nonce', func.short + ':window', old,
                      "a nonce seen before is accepted although the last "
                      "use need not be more than 90 minutes ago", w,
                      st.trace)

    def window(self, lo, hi, e):
        """lo < hi says that last_seen + window < now"""
        now = has(hi, lambda x: is_call(x, 'time', 'get_unixtime',
                                        'from_now_utc'))
        seen = has(lo, lambda x: x.op == 'sub' and is_const(
            x.args[1], 'LastSeen') and x.args[0] is e)
        secs = 0
        for side, sign in ((lo, 1), (hi, -1)):
            for x in side.subterms():
                if x.op == 'bin' and x.args[0] in ('Add', 'Sub'):
                    for y in x.args[1:]:
                        if y.op == 'const' and isinstance(
                                y.args[0], (int, float)):
                            s = 1 if x.args[0] == 'Add' else -1
                            secs += sign * s * y.args[0]
        if not seen and has(lo, lambda x: x.op == 'const') and has(
                hi, lambda x: x.op == 'sub' and is_const(
                    x.args[1], 'LastSeen')):
            # window < now - last_seen
            if lo.op == 'const' and hi.op == 'bin' and \
                    hi.args[0] == 'Sub' and now and has(
                        hi.args[2], lambda x: x.op == 'sub'):
                return lo.args[0] >= 5400
        return now and seen and secs >= 5400


class Secret(EventCheck):

    """Consumer lookup and the validator call-backs"""

    def func_exit(self, it, st, func, kind, payload, fr):
        if payload is None:
            payload = NONE
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        n = func.name
        if kind == 'raise':
            return
        if n in ('check_client_key', 'check_nonce'):
            arg = T('param', func.params()[1])
            if is_const(payload) and not payload.args[0]:
                return
            t = payload
            ok = t is arg or any(x is arg and p is True
                                 for x, p in st.facts.items()) or (
                t.op == 'cmp' and has(t, lambda x: x is arg) and
                t.args[0] == '<' and is_const(t.args[1], 0)) or (
                is_call(t, 'bool', 'len') and has(t, lambda x: x is arg))
            self.note('validator', func.short, ok,
                      "an empty key or nonce is accepted", w)
        elif n == 'validate_client_key':
            if is_const(payload) and not payload.args[0]:
                return
            ok = any(e[1].args[3] and e[1].args[3][0] is T(
                'param', func.params()[1])
                for e in self.events(st, 'found'))
            self.note('validator', func.short, ok, "a client key is "
                      "accepted without a consumer of that key", w,
                      st.trace)
        elif n == 'get_client_secret':
            arg = T('param', func.params()[1])
            ok = (is_attr(payload, 'secret') and is_call(
                payload.args[0], 'lookup_consumer') and
                payload.args[0].args[3][0] is arg) or is_attr(
                    payload, 'dummy_secret')
            self.note('validator', func.short, ok, "the secret is not that "
                      "of the consumer with this key", w)
            if is_attr(payload, 'dummy_secret'):
                self.note('validator', func.short + ':dummy',
                          not self.events(st, 'found'),
                          "the dummy secret is used for a known consumer",
                          w)
        elif n == 'lookup_consumer':
            arg = T('param', func.params()[1])
            ent = None
            if payload.op in ('new', 'call'):
                args = payload.args[1] if payload.op == 'new' else \
                    payload.args[3]
                ent = args[0] if args else None
            ok = ent is not None and ent.op == 'sub' and is_call(
                ent.args[1], 'key60') and has(
                    ent.args[1], lambda x: x is arg) and has(
                    ent.args[0], lambda x: is_attr(x, 'consumers'))
            self.note('validator', func.short, ok, "the consumer is not "
                      "looked up by its key in the table of consumers", w)

    def after_call(self, it, st, ci, term):
        if ci.name == 'lookup_consumer':
            return self.put(st, ('found', term))
        return st

    def call(self, it, st, ci):
        if ci.name == 'lookup_consumer':
            self.throw(it, st, ci, 'KeyError')
        return None


class App(EventCheck):

    """lti_launch: nothing happens before the launch is verified"""

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo

    def call(self, it, st, ci):
        f = self.func
        launched = bool(self.events(st, 'launch'))
        if ci.name in ACTS and f.name == 'lti_launch':
            self.note('order', "%s:%s" % (f.short, ci.name), launched,
                      "part of a launch is carried out before the launch "
                      "was verified", ci.where, st.trace)
        if ci.name == 'launch' and not ci.kw.get('x'):
            self.throw(it, st, ci, self.repo.cls(MOD + '.LTIError'))
            for c in ('LTIAuthenticationError', 'LTIProtocolError'):
                self.throw(it, st, ci, self.repo.cls(MOD + '.' + c))
            args = list(ci.args)
            ok = len(args) >= 4 and has(
                args[0], lambda x: x.op == 'sub' and is_const(
                    x.args[1], 'REQUEST_METHOD')) and has(
                args[1], lambda x: is_call(x, 'get_url')) and has(
                args[3], lambda x: is_call(x, 'get_content'))
            self.note('order', f.short + ':request', ok, "the launch check "
                      "is not made on the method, address and content of "
                      "this request", ci.where)
        if ci.name == 'set_launch_resource':
            self.throw(it, st, ci,
                       self.repo.cls(MOD + '.LTIProtocolError'))
        if ci.name == 'new_visit' and f.name == 'lti_launch':
            done = {e[1] for e in self.events(st, 'did')}
            for n in NEEDED:
                self.note('order', "%s:new_visit:%s" % (f.short, n),
                          n in done, "a visit is created before %s" % n,
                          ci.where, st.trace)
        return None

    def after_call(self, it, st, ci, term):
        if ci.name == 'launch' and self.func.name == 'lti_launch':
            st = self.put(st, ('launch', term))
        if ci.name in ACTS:
            st = self.put(st, ('did', ci.name))
        return st

    def attr_store(self, it, st, base, attr, value, node, fr):
        if self.func.name == 'lti_launch' and attr in (
                'consumer', 'parameters') and base.op == 'param':
            ok = any(has(value, lambda x, l=l: x is l)
                     for _, l in self.events(st, 'launch'))
            self.note('order', "%s:%s" % (self.func.short, attr), ok,
                      "the %s of the request does not come from the "
                      "verified launch" % attr, where_of(fr, node))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if func.name != 'lti_launch':
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        if kind == 'raise':
            c = payload.args[0] if payload is not None and \
                payload.op == 'new' else None
            if isinstance(c, Class):
                self.note('refuse', func.short + ':' + c.name,
                          c.name == 'LTIError', "a refused launch is not "
                          "turned into an error page", w, st.trace)
            return
        done = {e[1] for e in self.events(st, 'did')}
        if payload is not None and is_call(payload, 'session_page'):
            self.note('refuse', func.short + ':page',
                      'new_visit' in done, "the launch page is returned "
                      "on a path that created no visit", w, st.trace)
        if payload is not None and is_call(payload, 'error_page'):
            self.note('refuse', func.short + ':error',
                      'new_visit' not in done, "an error is returned "
                      "after the visit was created", w)


class Visit(EventCheck):

    """set_launch_permissions and new_visit record what was launched"""

    def call(self, it, st, ci):
        f = self.func
        if ci.name == 'set_from_value' and ci.recv is not None and \
                ci.recv.op == 'sub' and ci.recv.args[1].op == 'const':
            n = ci.recv.args[1].args[0]
            v = ci.arg(0, 'value')
            if f.name == 'new_visit' and n == 'Permissions':
                self.note('visit', f.short + ':Permissions',
                          is_attr(strip(v), 'permissions'),
                          "the visit records permissions other than those "
                          "of the launch", ci.where)
            if f.name == 'new_visit' and n == 'Session' and \
                    v is not NONE:
                self.note('visit', f.short + ':Session',
                          is_attr(strip(v), 'sid') and
                          is_attr(strip(v).args[0], 'session'),
                          "the visit is linked to another session",
                          ci.where)
        if f.name == 'new_visit' and ci.name == 'bind_entity' and \
                ci.recv is not None and ci.recv.op == 'sub' and \
                ci.recv.args[1].op == 'const':
            n = ci.recv.args[1].args[0]
            a = strip(ci.arg(0, 'entity') or NONE)
            self.note('visit', f.short + ':' + str(n),
                      is_attr(a, str(n).lower()), "the visit is bound to "
                      "another %s" % n, ci.where)
        return None

    def attr_store(self, it, st, base, attr, value, node, fr):
        f = self.func
        if attr == 'permissions' and f.name == 'set_launch_permissions':
            bad = flows(value, lambda x: (
                x.op == 'const' and isinstance(x.args[0], int) and
                not isinstance(x.args[0], bool) and x.args[0] != 0) or
                is_attr(x, 'READ_PERMISSION', 'WRITE_PERMISSION',
                        'CONFIGURE_PERMISSION'),
                lambda x: is_call(x, 'get_permissions'))
            self.note('visit', f.short, bad is None, "permissions are "
                      "granted that do not come from a role of the launch",
                      where_of(fr, node))
        return st


class Roles(EventCheck):

    """get_permissions grants rights to the roles they belong to only"""

    def call(self, it, st, ci):
        # a launch may name roles of any other vocabulary
        if ci.name in ('is_subrole', 'split_role') and not self.events(
                st, 'role'):
            self.throw(it, st, ci, 'ValueError')
        return None

    def after_call(self, it, st, ci, term):
        if ci.name in ('is_subrole', 'split_role') and ci.args and \
                ci.args[0].op == 'param':
            return self.put(st, ('role',))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            c = exc_of(it, payload, fr)
            if c is not None and c.name == 'builtins.ValueError':
                self.note('known', func.short, False, "a launch with a "
                          "role that is not an LTI role fails", "%s:%s" % (
                              func.module.rel, func.node.lineno), st.trace)
            return
        self.note('known', func.short, True)
        if payload is None:
            return
        if is_const(payload) and not payload.args[0]:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        role = T('param', func.params()[1])

        def sub_of(name):
            return any(p is True and is_call(t, 'is_subrole') and
                       len(t.args[3]) > 1 and t.args[3][0] is role and
                       t.args[3][1].op == 'sub' and
                       is_const(t.args[3][1].args[1], name)
                       for t, p in st.facts.items())
        more = has(payload, lambda x: is_attr(
            x, 'WRITE_PERMISSION', 'CONFIGURE_PERMISSION') or (
            x.op == 'const' and isinstance(x.args[0], int) and
            x.args[0] & 6))
        if more:
            self.note('visit', func.short + ':write', sub_of('Instructor'),
                      "write or configure permission is granted to a role "
                      "that is not an instructor", w, st.trace)
        else:
            self.note('visit', func.short + ':read',
                      sub_of('Instructor') or sub_of('Learner'),
                      "read permission is granted to a role that is "
                      "neither learner nor instructor", w, st.trace)


class Types(EventCheck):

    """Context types that are not known are left out"""

    def call(self, it, st, ci):
        if ci.name in ('append', 'add') and ci.args:
            t = ci.args[0]
            miss = is_call(t, 'get') and t.args[3] and (
                len(t.args[3]) < 2 or t.args[3][1] is NONE)
            if miss:
                ok = any(f is t and p is True or f.op == 'cmp' and
                         f.args[0] in ('is', '==') and p is False and
                         t in f.args[1:] and NONE in f.args[1:]
                         for f, p in st.facts.items())
                self.note('known', self.func.short, ok, "a context type "
                          "that is not known is passed on as None",
                          ci.where, st.trace)
            else:
                self.note('known', self.func.short + ':uri', True)
        return None

    def relevant(self, t):
        return t.op in ('cmp', 'call')


def run(repo, rep):
    rep.rule('accept', 'launch returns a consumer only after the OAuth '
             'endpoint found the whole request valid, for the consumer key '
             'in the signed parameters and the supported message type and '
             'version', 4)
    rep.rule('nonce', 'a nonce is accepted only when it is new for this '
             'client or was last used more than 90 minutes ago, and is '
             'recorded with the current time before it is accepted', 4)
    rep.rule('validator', 'the validator only knows non-empty keys and '
             'nonces, consumers in the table and their own secret', 5)
    rep.rule('order', 'no part of a launch is carried out before it was '
             'verified, and no visit is created before every part was', 8)
    rep.rule('refuse', 'a launch that is refused ends in an error page and '
             'creates no visit', 2)
    rep.rule('visit', 'the visit records the session, resource, user and '
             'permissions of this launch, and permissions come from its '
             'roles', 5)
    rep.rule('known', 'roles and context types of other vocabularies do '
             'not make a launch fail', 2)
    consts = {}
    m = repo.modules['pyslet.' + MOD]
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and isinstance(
                    s.value, ast.Constant):
            consts[s.targets[0].id] = s.value.value
        elif isinstance(s, ast.Assign) and isinstance(
                s.value, ast.Call) and s.value.args and isinstance(
                    s.value.args[0], ast.Constant) and isinstance(
                        s.targets[0], ast.Name):
            consts[s.targets[0].id] = s.value.args[0].value
    tp = family(repo, MOD + '.ToolProvider')
    app = family(repo, MOD + '.ToolProviderApp')

    def each(classes, chk, *names):
        for c in classes:
            for n in names:
                f = c.methods.get(n)
                if f is None:
                    if c is classes[0]:
                        raise AnalysisError("%s.%s not found" % (
                            c.qual, n))
                    continue
                if f.cls is c:
                    run_func(repo, chk, f)
        chk.flush()

    each(tp, Launch(rep, consts), 'launch')
    each(tp, Nonce(rep), 'validate_timestamp_and_nonce')
    each(tp, Secret(rep), 'check_client_key', 'check_nonce',
         'validate_client_key', 'get_client_secret', 'lookup_consumer')
    each(app, App(rep, repo), 'lti_launch')
    each(app, Visit(rep), 'new_visit', 'set_launch_permissions')
    each(app, Roles(rep), 'get_permissions')
    each(app, Types(rep), 'set_launch_group')
