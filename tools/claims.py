TECH = {'C18': 'TLA+ specification of the copying functions checked with TLC; TLC-generated calls replayed into the library and the recorded results validated by TLC',
        '*': 'TLA+ contract specification; TLC-generated histories replayed into the library; recorded traces validated by TLC',
        'C16': 'TLA+ locking protocol checked with TLC; TLC-generated schedules of threads replayed into the library; recorded synchronisation traces validated by TLC'}
_I = 'TLA+ model of the allocator checked with TLC against a TLA+ contract; TLC-generated histories replayed into the library; recorded traces validated by TLC against the contract'
for _p in 'C01 C02 C03 C05 C06 C07 C09 C12 C13 C14 C15 C17 C20'.split():
    TECH[_p] = _I
TECH['C22'] = 'TLA+ specification of the settings checked with TLC; TLC-generated environments replayed; recorded behaviour validated by TLC'
TECH['C23'] = 'TLA+ model of the initialisation checked with TLC; TLC-generated first calls replayed in fresh processes; recorded behaviour validated by TLC'
TECH['C24'] = TECH['C16']
NOTE = {'*': 'Every history TLC generates in the stated bounds is run on the real library and every observed step is judged by the TLA+ contract; trusts the page-level stand-ins for mmap/munmap/mprotect, the trace conversion and TLC.'}
NA = {}
