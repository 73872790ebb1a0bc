"""Which module holds the harnesses of a property, and what is said about
them in the evidence."""
from .docs import PROPS

MODULE_OF = {p: 'dates' for p in ('C01', 'C02', 'C03', 'C04', 'C10', 'C11',
                                  'C12')}
MODULE_OF.update({p: 'numeric' for p in (
    'C05', 'C06', 'C07', 'C08', 'C09', 'C19', 'C25', 'C27', 'C28', 'C29')})
DOC = {p['id']: p for p in PROPS}
MODULE_OF.update({p: 'times' for p in (
    'C13', 'C14', 'C15', 'C16', 'C18', 'C20')})
MODULE_OF.update({p: 'texts' for p in (
    'C17', 'C21', 'C22', 'C23', 'C24')})
MODULE_OF.update({p: 'misc' for p in ('C30', 'C31', 'C32')})
MODULE_OF.update({p: 'places' for p in ('C33', 'C34')})
MODULE_OF['C35'] = 'folds'
