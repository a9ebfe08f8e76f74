"""The claim ledger: who may count a course."""
from contracts.common import *

claim_args = {'ctx': claim_ctx_t, 'course': course_t, 'path': path_t, 'allow': BoolT()}


def old_claims(ctx, course, other):
    return {
        'mine': list(ctx.claims[course.clbid]) if course.clbid in ctx.claims else [],
        'other': list(ctx.claims[other]) if other in ctx.claims else [],
        'had_other': other in ctx.claims,
        'had_mine': course.clbid in ctx.claims,
    }


call = lambda ctx, course, path, allow: ctx.make_claim(course=course, path=path, allow_claimed=allow)


def describes(course, path, allow, result):
    return result.course is course and result.claimed_by == path


def bypass(ctx, course, allow, result, old):
    """allow_claimed: succeeds and leaves no trace in the ledger."""
    if not allow:
        return True
    if result.failed:
        return False
    if not old['had_mine']:
        return course.clbid not in ctx.claims or len(ctx.claims[course.clbid]) == 0
    return ctx.claims[course.clbid] == old['mine']


def exclusive(ctx, course, allow, result, old):
    """Without a multicountable set, a second claim fails and changes nothing."""
    if allow or course.course() in ctx.multicountable:
        return True
    if len(old['mine']) == 0:
        return not result.failed
    return result.failed


def recorded(ctx, course, allow, result, old):
    """A successful claim is appended to the ledger; a failed one never is."""
    if allow:
        return True
    if result.failed:
        return ctx.claims[course.clbid] == old['mine']
    return ctx.claims[course.clbid] == old['mine'] + [result]


def frame(ctx, course, other, old):
    """No other course's claims change."""
    if other == course.clbid:
        return True
    if (other in ctx.claims) != old['had_other']:
        return False
    return (not old['had_other']) or ctx.claims[other] == old['other']


Contract('C04', 'claim.make', call, claim_args, {'describes-the-claim': describes, 'allow_claimed-bypasses': bypass, 'exclusive': exclusive, 'recorded': recorded, 'frame': frame},
         ghost={'other': StrT(CLBIDS)}, old=old_claims, statement='make_claim over every ledger, course, path and multicountable table')


def multi(ctx, course, path, allow, result, old):
    if allow or course.course() not in ctx.multicountable or not old['had_mine']:
        return True
    listed = ctx.multicountable[course.course()]
    mine = reqs_only(path)
    prior = [reqs_only(c.claimed_by) for c in old['mine']]
    if len(old['mine']) == 0:
        return not result.failed
    if mine not in listed:
        return result.failed
    return result.failed == (mine in prior)


well_formed = lambda path: all(len(p) > 0 for p in path)
Contract('C05', 'claim.multicountable', call, claim_args, {'listed-paths-only': multi},
         ghost={'other': StrT(CLBIDS)}, old=old_claims, statement='a multicountable course is claimed again exactly from a listed requirement path that has not claimed it yet')
