EX = "explicit-state enumeration of lifetime chains and configurations, each replayed on the real code"
HI = "bounded exhaustive exploration of operation histories on the real objects against a reference state"
N = ("Exhaustive within the stated alphabets and bounds; every model value is compared with a real call. Trusts the "
     "small reference model in mc/model.py; says nothing about values outside the alphabets.")
CLAIMS = {i: (EX, N) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C40")}
NA = {}
