"""Which properties are claimed, at which level."""
IDS = [f'C{i:02d}' for i in range (1, 33)] + ['C34', 'C35']
PROVED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C26', 'C28', 'C29', 'C30', 'C31', 'C32', 'C35']
PARTLY = ['C10']                    # obligations discharged, some of them with a stated bound
PROPS = dict ((i, dict (proof=i in PROVED + PARTLY, assumptions=[])) for i in IDS)
LEVELS = dict ((i, 'proof' if i in PROVED else 'exploration') for i in IDS)
NOTES = dict (C10='bounded: obligations discharged for a stated number of modifiers per press, the rest by the contract evaluated on the real code for generated inputs')
