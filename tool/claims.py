CLAIMS = dict.fromkeys('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22'.split(), '')
NA = {p['id']: 'not yet under contract' for p in PROPS}

CLAIMS['C22'] = 'The selection of the added term and the degree filter are proved; the refinement loop around them (term count, patience, best sets, determinism) is checked by a bounded run with a logging objective and not counted as proved.'
CLAIMS['C21'] = 'The refinement loops of the adaptive rules are checked by bounded runs and not counted as proved.'
