"""The properties: statement, anchors, and what the check gives."""


def P(id, title, statement, over, text, why, files, mech, note, observe=(), **kw):
    return dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                anchors={'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}, note=note, **kw)


PROVED = 'Every obligation is discharged for all inputs of the declared types (unbounded sequences, exact reals for Decimal); trusts the pyvc symbolic executor, the collaborator contracts named in the evidence, and the solvers. Anything that leaves the verified subset is reported in the evidence as a bounded stand-in, executed on generated inputs.'

MIXED = PROVED + ' Here the search over selections itself is decided by a bounded check of the real function over every input up to a stated size (listed under bounded in the evidence, not counted as proved), the functions it rests on by proof.'

SEVERAL = PROVED + ' The clauses named bounded in the evidence (where several rules or solutions follow one another in real generators) are decided by a bounded check of the real function over many inputs up to a stated size and are not counted as proved; the functions they rest on are proved.'
PROPS = [
    P('C01', 'Result status follows from its parts', 'A requirement node counts as satisfied exactly when its rule is met: a count needs at least its number of passing children plus all its audits, a query needs all its assertions, a conditional follows the branch its condition selects, a requirement follows its result unless waived or left to the department. A satisfied status is only as final as its weakest contributing part (waived, done, in progress, registered), and a failed invariant below always surfaces.',
      ['inputs'], 'every combination of child statuses, counts, audits, waivers', 'tests sample a few trees; the status function must be right for every combination of child and audit statuses and every count', ['dp/base/count.py', 'dp/base/query.py', 'dp/base/course.py', 'dp/base/requirement.py', 'dp/base/conditional.py', 'dp/base/proficiency.py', 'dp/status.py'],
      [('status() of each node', 'dp/base/*.py'), ('calculate_result_status_from', 'dp/base/count.py')], PROVED, ['Result.status()', 'Result.is_ok()']),
    P('C02', 'An assertion says what its courses say', 'An assertion is done exactly when its comparison holds of the items its where-clause matches (plus the ones inserted at its path, each once, less the ones blocked there); it is only in progress or registered when it needs courses that are, it is a failed invariant when an upper bound is broken, and otherwise it is empty or partly complete. Its expected number is the one written, adjusted by every $changes entry whose condition holds, and replaced only by a value exception at its exact path; a waiver there waives it. An insertion which is not forced, or a block, of a course that is not in the transcript in use changes nothing.',
      ['inputs'], 'every assertion, transcript and set of exceptions', 'tests sample a few assertions', ['dp/assertion_clause.py', 'dp/apply_clause.py'], [('evaluate_with_courses', 'dp/assertion_clause.py'), ('audit_and_resolve', 'dp/assertion_clause.py'), ('load_single_assertion', 'dp/assertion_clause.py')], PROVED, ['Assertion.state']),
    P('C03', 'Rank is bounded by max rank and counts every part', 'The progress rank of any result lies between zero and its maximum, is full when the node is waived, and is the sum over its parts, so a result with more completed parts never ranks lower. A finished course outranks one in progress, which outranks a registered one, which outranks nothing.',
      ['inputs'], 'every result tree', 'the comparison that picks the best audit uses ranks of arbitrary trees', ['dp/base/count.py', 'dp/base/query.py', 'dp/base/course.py', 'dp/base/requirement.py', 'dp/base/conditional.py', 'dp/base/proficiency.py'],
      [('rank() of each node', 'dp/base/*.py')], PROVED, ['Result.rank()']),
    P('C04', 'A course is counted only once', 'Unless a course is declared multicountable or the rule opts out of claiming, once one requirement has claimed it every later claim on it fails, a failed claim changes nothing, and claims on other courses are never affected.',
      ['inputs', 'histories'], 'every claim history, course, path and multicountable table', 'tests exercise a few claim sequences', ['dp/context.py', 'dp/claim.py'], [('make_claim', 'dp/context.py'), ('claims ledger', 'dp/context.py')], PROVED, ['RequirementContext.make_claim']),
    P('C05', 'A multicountable course counts only on listed requirement paths', 'A course declared multicountable may be claimed again exactly by a requirement whose path is one of the listed ones and that has not already claimed it; any other further claim fails.',
      ['inputs', 'histories'], 'every claim history and multicountable table', 'tests use two or three paths', ['dp/context.py'], [('make_claim', 'dp/context.py'), ('find_subset', 'dp/context.py')], PROVED, ['RequirementContext.make_claim']),
    P('C06', 'The best solution found is the one reported', 'An audit looks at the solutions in the order they are generated and ends with the first one that is finished (done or waived); when none is, it ends with one that no other solution outranks, the earliest of those. The same holds for every rule that is solved on its own. An audit opens with its estimate and ends with a result, or with the notice that there was nothing to audit; nothing is audited when only the estimate was asked for.',
      ['inputs'], 'every sequence of solutions, statuses and ranks', 'tests audit areas with few solutions and rarely depend on the order of ranks', ['dp/audit.py', 'dp/solve.py'], [('audit', 'dp/audit.py'), ('find_best_solution', 'dp/solve.py')], PROVED, ['ResultMsg.result']),
    P('C07', 'Claims of one attempt never leak into another', 'Every attempt at a requirement starts from its own set of claims: inside a fresh set nothing is claimed yet, and when the attempt ends, also by an error, the earlier claims are back unchanged; a context with emptied claims and claims put into a context are copies. Solving a rule tries its solutions without leaving a trace; a rule solved on its own adds exactly the claims of the solution that was chosen, and of no other. Every solution of an area starts from the claims of the rules that were solved on their own, untouched by the other solutions.',
      ['inputs', 'histories'], 'every set of earlier claims and every sequence of solutions, ranks and statuses', 'tests look at results of single audits, not at the claims between solutions', ['dp/context.py', 'dp/solve.py', 'dp/rule/count.py', 'dp/area.py'], [('fresh_claims/with_empty_claims/set_claims', 'dp/context.py'), ('find_best_solution', 'dp/solve.py'), ('solve_independent_children', 'dp/rule/count.py'), ('AreaOfStudy.solutions', 'dp/area.py')], SEVERAL, ['RequirementContext.claims']),
    P('C08', 'Operators mean what they say', 'A where-clause or assertion operator compares exactly as written: numbers and letter grades by order, strings by equality, a list against a value by membership (with $neq and $nin the exact complements), two lists by sharing an element, a missing value matches nothing. A non-letter grade never meets a minimum, and a combination with no meaning is an error rather than an answer.',
      ['inputs'], 'every operator and every pair of operands', 'tests sample a dozen operand pairs', ['dp/op.py', 'dp/data/course_enums.py'], [('apply_operator', 'dp/op.py'), ('GradeCode ordering', 'dp/data/course_enums.py')], PROVED, ['apply_operator']),
    P('C09', 'Conditions and compound clauses follow boolean logic', '$and, $or and $not combine any clauses as conjunction, disjunction and negation, $if applies $then or $else as its condition decides, and each question a condition may ask about the student (a course, a completed or in-progress course, an attribute, a declared area, a proficiency) is true exactly when the student record says so.',
      ['inputs'], 'every clause tree, transcript and student record', 'tests sample a few trees', ['dp/predicate_clause.py', 'dp/conditional_expression.py', 'dp/data/music.py', 'dp/data/student.py'],
      [('Predicate*.apply', 'dp/predicate_clause.py'), ('evaluate_predicate_function', 'dp/conditional_expression.py'), ('MusicProficiencies.status', 'dp/data/music.py')], PROVED, ['clause.apply', 'expression.evaluate']),
    P('C10', 'A where-clause reads the property it names', 'A clause matches a course or an area by comparing exactly the property it names (subject, number, level, grade, credits, attributes, institution, term and so on) and nothing else; CH/BI 125 and 126 count as CHEM and 127 and 227 as BIO; a grade clause in the COVID term reveals the grade behind an S and uses the covid bar when there is one; an ap clause matches AP credit only.',
      ['inputs'], 'every course, area, key, operator and expected value', 'tests sample a few keys', ['dp/data/course.py', 'dp/data/area_pointer.py', 'dp/predicate_clause.py', 'dp/data/clausable.py'], [('CourseInstance.apply_predicate', 'dp/data/course.py'), ('AreaPointer.apply_predicate', 'dp/data/area_pointer.py')], PROVED, ['Predicate.apply']),
    P('C11', 'Aggregates and GPA count exactly the matched data', 'count(courses), count(terms), count(subjects) and the other counts are the number of different values among exactly the matched items, sums and averages are over exactly the credits of the matched courses, the most-common-course and single-subject aggregates pick a truly maximal group, and a GPA is the credit-weighted mean of the in-GPA courses, cut (not rounded) to two places; the GPA report gives that of each term, of everything up to it, and of all courses.',
      ['inputs'], 'every list of matched courses, areas or performances', 'tests sample a few lists', ['dp/apply_clause.py', 'dp/lib.py'], [('count_*/sum_*/average_*', 'dp/apply_clause.py'), ('grade_point_average', 'dp/lib.py')], PROVED, ['AppliedClauseResult.value']),
    P('C15', 'An exception applies at exactly its path', 'Every exception entered for a student (insertion, forced insertion, block, waiver, value, course credits or subject) loads as the kind and with the values it says, is found at exactly the requirement path it names and nowhere else, none is lost or reordered by grouping, a path has exceptions beneath it exactly when it is a prefix of one, a migration rewrites only the matching prefix, and exceptions entered for another area have no effect. A block reaches the rule at its path however deeply that rule is nested. A course inserted at the path of a count rule, and only there, becomes one more of its choices, which may use a course claimed elsewhere exactly when the insertion is forced.',
      ['inputs'], 'every set of exceptions and every path', 'tests use one exception at a time', ['dp/exception.py', 'dp/context.py'], [('load_exception', 'dp/exception.py'), ('get_*_exception(s)', 'dp/context.py'), ('has_exception_beneath', 'dp/context.py')], PROVED, ['RequirementContext.get_insert_exceptions']),
    P('C12', 'A limit admits exactly the selections within it', 'A transcript limited by limits offers only selections in which no limit is exceeded (no more matching courses than its count, no more credits than its credits), never invents or repeats a course, always keeps the courses no limit matches and the force-inserted ones, and never gives up a selection that could not be extended without exceeding a limit; without limits it offers the whole transcript once.',
      ['inputs'], 'every set of limits and every transcript', 'tests use one or two limits over a handful of courses', ['dp/limit.py'], [('LimitSet.limited_transcripts', 'dp/limit.py'), ('iterate_out_the_courses', 'dp/limit.py')], MIXED, ['LimitSet.limited_transcripts'], level='bounded'),
    P('C13', 'Every attempt at an area sees the whole record', 'An area is tried with every transcript its limits leave, in order, and for each with every solution of its topmost rule; each attempt has the limited transcript, the full one, the one with failed courses, the force-inserted courses of the transcript, the declared areas, recitals, performances, proficiencies, templates, exceptions and multicountable lists of this student and area, and no claims of another attempt. Its estimate is the sum over the same transcripts. Auditing an attempt audits its solution once, in that context, and the result keeps what the area says of itself. An area is loaded with its own rules, its declared emphases (or all, when asked), the same record, and leaves out the required courses and applies the blocks entered.',
      ['inputs'], 'every student record, set of limited transcripts, solutions and exceptions', 'tests audit a few hand-made students without music records, templates or limits', ['dp/area.py', 'dp/context.py'], [('AreaOfStudy.solutions, estimate, load', 'dp/area.py'), ('AreaSolution.audit', 'dp/area.py'), ('with_transcript', 'dp/context.py')], PROVED + ' The number of limited transcripts and of solutions is fixed at up to two each.', ['AreaSolution.context', 'AreaResult']),
    P('C14', 'Every admissible selection is tried', 'A query whose assertions need a number of courses (or of credits) is tried with selections of every size that can decide it, so that a selection satisfying it is not skipped: when some of the courses together meet all the assertions of a query (counts, sums of credits, limits from above on some of the courses, the branch that applies of a conditional one; those asked for only when the selection itself has some attribute aside), a selection that does is tried. The product of independent alternatives and the estimate of their number (n choose r) are the mathematical ones, in order and without repetition.',
      ['inputs'], 'every set of assertions and items', 'tests count combinations for a few sizes', ['dp/rule/query.py', 'dp/assertion_clause.py', 'dp/lazy_product.py', 'dp/ncr.py'], [('iterate_item_set', 'dp/rule/query.py'), ('input_size_range', 'dp/assertion_clause.py'), ('lazy_product', 'dp/lazy_product.py')], MIXED, ['QueryRule.solutions']),
    P('C16', 'The transcript holds exactly the courses that count', 'An audit works on exactly the rows of the record that count: audited courses, courses repeated later, withdrawn and unsuccessful courses are left out, and courses graded F appear only where failed courses are asked for; a second enrolment in the same class gets an id of its own. College courses come before transferred ones, then by year, term and id. Each course carries the recorded data, with the credits or subject override entered for it (or the credits its area gives its name), GPA points cut to two decimal places, and is pending this term or in the future by comparison with the current term. What-if-dropped areas are left out, other than the one being audited. Performances, recitals, proficiencies, declared areas and specification templates carry what their records say.',
      ['inputs'], 'every student record and set of overrides', 'tests load a handful of rows', ['dp/data/course.py', 'dp/data/student.py'], [('load_course', 'dp/data/course.py'), ('load_transcript', 'dp/data/student.py'), ('Student.load', 'dp/data/student.py')], SEVERAL, ['Student.courses']),
    P('C17', 'A course requirement takes exactly the courses it describes', 'A course reference (course, AP name, institution and name, class id, section, term, sub-type) finds exactly the transcript courses it describes; without an institution or AP name only courses taken at the college count. A course requirement tries each course inserted into it and each described course that is not kept out, was taken the required way, and has a high enough grade or is still in progress; with none it stays empty, and a waiver replaces them all. Inserted and forced courses are marked as such; a course inserted without force which is not in the transcript in use is not tried. Auditing it claims that course for its path, except when waived, missing, or when it must come from already claimed courses and does not. A block keeps exactly its class out of exactly the rule at its path, and a course counts as required only when it alone can fill the rule.',
      ['inputs'], 'every course reference, transcript, set of exceptions and prior claims', 'tests sample a few references and grades', ['dp/data/student.py', 'dp/context.py', 'dp/rule/course.py', 'dp/solution/course.py'], [('_course_filter', 'dp/data/student.py'), ('RequirementContext.find_courses', 'dp/context.py'), ('CourseRule.solutions', 'dp/rule/course.py'), ('CourseSolution.audit', 'dp/solution/course.py')], SEVERAL, ['CourseRule.solutions', 'CourseResult.claim_attempt']),
    P('C18', 'A query looks at, claims and counts exactly its own items', 'A query considers exactly the items of its source (courses, with the failed ones when asked; courses claimed by others; declared areas; recitals; performances) that match its filter and are not excluded there, plus the courses inserted there; every selection of them that is generated is tried, with the inserted courses added once, and an empty one is tried when there is none. It claims each course it counts unless told not to, counts only the courses it could claim, each once even when it is both inserted and matching (a course inserted without force which is not in the transcript in use is left out), reports the others as failed claims, and decides its assertions over exactly the items it counted.',
      ['inputs'], 'every query, transcript, set of exceptions and claims ledger', 'tests run a handful of queries', ['dp/rule/query.py', 'dp/solution/query.py', 'dp/context.py'], [('get_filtered_data, solutions', 'dp/rule/query.py'), ('collect_courses, audit', 'dp/solution/query.py'), ('all_claimed', 'dp/context.py')], PROVED, ['QuerySolution.audit']),
    P('C20', 'A queued audit runs once and its result replaces the old one', 'Each item of the audit queue is taken in a transaction of its own, in order of priority and then age, audited once with its own data against the newest specification not newer than its catalog year, and is gone from the queue afterwards, also when its specification is missing or its audit fails; no transaction stays open and the next item is still processed. A finished audit adds exactly one result row holding what was computed (rank, GPA, status, claims, input); unless it is link-only it becomes the only active row of that student and area, identical earlier rows are replaced, and rows of other students or areas are never touched; a failed audit changes no row. A batch queues one audit, with the data of the student, for each area a student has declared but the emphases, under the catalog of the area or else of the student, leaving out those already queued, blocked or not asked for.',
      ['histories', 'inputs'], 'every queue content, failure and table content', 'no test runs the server', ['dp/server/worker.py', 'dp/server/audit.py', 'dp/run.py', 'dp/server/batch.py', 'dp/bin/expand.py'], [('process_queue', 'dp/server/worker.py'), ('audit', 'dp/server/audit.py'), ('find_area', 'dp/run.py'), ('fetch_and_queue', 'dp/server/batch.py'), ('expand_student', 'dp/bin/expand.py')], 'Proved for queues of up to two items with any content and any failure; the SQL statements are executed by sqlite on bounded random tables. ' + MIXED, ['process_queue', 'audit.store'], level='bounded'),
    P('C19', 'A count requirement tries every combination of its parts', 'A count requirement is tried with every combination of its parts that can decide it: every choice of at least its number of parts (exactly that number when it says at most) among those that can match anything, with every choice of their solutions, each once and with all other parts present; if fewer parts than needed can match, with all of those; the estimate is the number of these combinations. At the top level a part is solved on its own only if it shares no possible match with any other part (or neither claims anything, as their queries or the requirement say) and does not look at claimed courses, however deeply the rule that does so is nested. What a requirement, count, conditional or proficiency may match, needs or lacks is exactly what its parts (the branch selected) may match, need or lack, and a course one part cannot do without is withheld from the queries of all.',
      ['inputs'], 'every tree of requirements and every set of solutions of the parts', 'tests use two or three courses in one count', ['dp/rule/count.py', 'dp/rule/requirement.py', 'dp/rule/conditional.py', 'dp/rule/proficiency.py'], [('solutions, estimate, find_independent_children', 'dp/rule/count.py'), ('is_never_disjoint', 'dp/rule/*.py')], SEVERAL, ['CountRule.solutions', 'CountRule.estimate']),
    P('C22', 'An area reports exactly what its rules claimed', 'The claims of an area are those of its rules: a count or requirement those of all its parts, a conditional those of the branch its condition selects, a course or query only the successful ones, a department-audited requirement none; by course they list every claiming path once. Requirements marked as outside the GPA contribute their claims but not to the GPA. The GPA of a degree is over the whole transcript with failed courses, that of any other area over the different courses claimed for it. The status and rank of an area are those of its topmost rule.',
      ['inputs'], 'every result tree and every set of claims', 'tests look at a few finished audits', ['dp/base/*.py', 'dp/result/*.py', 'dp/area.py'], [('claims, claims_for_gpa', 'dp/base/bases.py'), ('gpa, keyed_claims, status', 'dp/area.py')], PROVED, ['AreaResult.claims', 'AreaResult.gpa', 'AreaResult.status']),
    P('C23', 'Every major also meets the common requirements', 'The result of a major (and only of a major) gets exactly one more required part, which is met exactly when the courses claimed by the major, and those inserted among them, include six credits at C or better (C- or better, by internal grade, in the spring of 2020; courses in progress count), at most one one-credit course taken S/U (for a B.M. no S/U course at all), and, except for a B.M., the whole transcript, with the courses its limits left out, holds 21 credits outside the subject of the department (outside all music subjects for the B.A. in music; 18 one-credit courses outside ART for a double major in studio art and art history), REG and OFFC courses never counting; without a known department that last part is left to the department.',
      ['inputs'], 'every set of claimed courses, transcript, degree and set of other areas', 'no test audits a major', ['dp/area.py'], [('audit_common_major_requirements', 'dp/area.py'), ('prepare_common_rules', 'dp/area.py')], 'Decided by a bounded check of the real functions over random transcripts of up to 22 courses; the rules they load are decided by the contracts of C02, C08, C10 and C18.', ['AreaResult.status'], level='bounded', technique='bounded check of the real functions against an independent specification (the rules involved are proved under C02, C08, C10, C18)'),
    P('C21', 'A specification loads as written, or not at all', 'Every rule of an area specification (course, query, count, requirement, conditional, proficiency, limit, multicountable) is loaded with exactly the values it gives and the documented defaults for those it leaves out, at the path that names it, in the order written: all, any, both, either and count mean all, one, two, one and the number given; a conditional hidden when false is dropped exactly then; templates are expanded; exactly the emphases the student has declared add their requirements. A rule, limit or area holding a key it does not know, and a count that asks for more parts than it has, is refused.',
      ['inputs'], 'every specification', 'tests load a dozen specifications', ['dp/load_rule.py', 'dp/rule/*.py', 'dp/area.py', 'dp/limit.py'], [('load_rule', 'dp/load_rule.py'), ('*.load', 'dp/rule/*.py'), ('AreaOfStudy.load', 'dp/area.py')], SEVERAL + ' Proved for every value: each kind of rule on its own (course, proficiency, query, requirement, conditional, count of two, one where-clause, one assertion). Bounded: random nested specifications against an independent reading of them.', ['AreaOfStudy.load']),
    P('C24', 'A solution is audited part by part', 'Auditing a solution audits each of its solved parts once and in order, in the same audit context, and keeps everything else as it was: names, messages, flags, counts, bounds, audits, conditions and paths are those of the rule, a part that was not tried or a branch that does not apply is reported as it is, and a waived node is not audited at all. The audits of a count look at exactly the courses its parts matched. A requirement and a conditional are tried with every solution of their result or selected branch, once and in order; a proficiency is met by the recorded proficiency of its name or by its course.',
      ['inputs'], 'every tree of rules and solutions', 'tests audit a few trees', ['dp/solution/*.py', 'dp/result/*.py', 'dp/rule/requirement.py', 'dp/rule/conditional.py', 'dp/rule/proficiency.py'], [('*.audit', 'dp/solution/*.py'), ('*.from_solution', 'dp/result/*.py'), ('*.solutions', 'dp/rule/*.py')], PROVED, ['CountSolution.audit']),
    P('C25', 'The report says what the audit found', 'The record made of a result (the JSON form which is stored and shown) says what the result is: every node states its path, kind, status, rank, highest rank and whether it was waived, and its own data (what was asked for, the parts in their order, the claims which succeeded and those which failed, inserted courses, messages and flags); an assertion states the number asked for (beside the original one when an exception changed it), the value reached and the courses which count; conditions, clauses, limits, claims, exceptions and courses carry their data; an area is reported ok exactly when it is waived or done, with its GPA. The printed result shows every part of that record, in order, under its path, with the sign of its status, what its assertions ask for (and asked for before an exception) and reached, the courses matched and counted (inserted ones marked), how many parts a count needs and has, its limits, and the claimed courses.',
      ['inputs'], 'every tree of results', 'tests print a few results', ['dp/base/*.py', 'dp/assertion_clause.py', 'dp/conditional_expression.py', 'dp/predicate_clause.py', 'dp/limit.py', 'dp/claim.py', 'dp/exception.py', 'dp/data/*.py', 'dp/area.py', 'dp/stringify_v3.py'], [('*.to_dict', 'dp/base/*.py'), ('Assertion.to_dict', 'dp/assertion_clause.py'), ('AreaOfStudy.to_dict', 'dp/area.py')], PROVED, ['Result.to_dict()']),
]

NOT_APPLICABLE = []
