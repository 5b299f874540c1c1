MAP += [("fix: withdrawing", "C15"), ("fix: releasing the middle", "C15"), ("fix: a right press", "C15"), ("fix: reset also clears", "C15"), ("fix: an opening counts", "C15")]
MAP += [("fix: a game that ends with its first click", "C16"), ("fix: reading the clock", "C16"), ("fix: events outside the board", "C16")]
MAP += [("fix: a recording that is lost by its first click", "C17"), ("fix: reset also forgets", "C18"), ("fix: a checksum can be set", "C18"), ("fix: recordings saved at", "C19"),
        ("fix: pre-game flags of rmv", "C20"), ("fix: the second event of an mvf", "C20"), ("fix: an avf recording with", "C21"), ("fix: an evf recording of", "C21"),
        ("fix: rmv recordings with", "C21"), ("fix: mvf recordings with", "C21"), ("fix: mvf recordings of versions", "C21"), ("fix: seeking to the time", "C22"), ("fix: probabilities shown before", "C22")]
MAP += [("fix: rqp, qg", "C23"), ("fix: is_valid does", "C27"), ("fix: a guess is called", "C26"), ("fix: survive_poss", "C26"), ("fix: removing a flag", "C26"), ("fix: super_fl_local", "C26")]
MAP += [("fix: a game whose mines", "C15")]
MAP += [("fix: a recording that begins outside", "C22"), ("fix: iterating over a protected board that was set", "C04")]
MAP += [("fix: choosing an event through Python", "C31"), ("fix: choosing an event through JavaScript", "C32"), ("fix: a board that contradicts itself has no table", "C32"),
        ("fix: the C interface compiles", "C33"), ("fix: the C interface frees", "C33")]

MAP += [("fix: refuse to show an event that is not in the recording", "C22")]
MAP += [("fix: looping over a protected board in Python", "C30")]
MAP += [("fix: an opening of any size", "C02"), ("fix: cal_possibility takes time in proportion", "C08")]
