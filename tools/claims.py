claim("C01 C02 C03 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C26 C27 C28 C29 C30")
claim("C04", ENUM + "; and " + SCHED, NOTE + CONC)
claim("C05 C06 C08", SEQ + "; and " + SCHED, NOTE + CONC)
claim("C07 C25", SCHED, NOTE + CONC)
