F+=[("C11","fix: monitors keep only","monitors stored and published objects without verifying them"),
("C12","fix: a queried logger or CA must","a logger or CA could answer a query with somebody else's statement, or one of another kind, and was not accused"),
("C12","fix: monitors find conflict PoMs","entities convicted in an earlier period were asked again and their statements passed on (also C13)"),
("C14","fix: check the SRH against","clients and monitors checked the signature against the old vector and never updated the vector on file"),
("C15","fix: the CA keeps the previous CRV","from the second period on the CA's delta was empty: previous and current vector were the same object"),
("C18","fix: periods of CAs and loggers","in the last minute of the hour and in minutes 0-9 statements were filed under periods nobody asks for (60, single digits)"),
("C13","fix: every conflict PoM gets","conflict proofs received after the update of a period was made were in no update"),
("C13","fix: answer requests for updates","a request for an update that does not exist ended the monitor"),
("C17","fix: release the client's locks","after a rejected update the client hung for ever on the next one"),
("C17","fix: clients take only threshold","clients took initial objects of a single entity for threshold signed ones"),
("C18","fix: loggers survive periods with","a period with fewer than two precertificates ended the logger"),
("C16","fix: clients check that inclusion proofs","leaves and inner nodes are hashed alike: a logged certificate whose subject ends with the hash of an inner node made any other certificate pass for logged"),
("C16","fix: clients look up the logger","the threshold signed tree head of a convicted logger, with another name in its unsigned Signer field, was accepted"),
("C16","fix: clients do not panic on certificates","a certificate of an issuer without revocations on file crashed the client"),
("C16","fix: clients load the PoM database","a restarted client forgot all proofs of misbehaviour"),
("C18","fix: the CA takes only tree heads","a made-up proof of inclusion, or another logger's threshold signed tree head, got into certificates in place of the real one"),
("C16","fix: loggers and CAs survive peers","a CA that was down ended the logger that had a proof for it"),
("C18","fix: loggers survive requests that are not","a request that is not a certificate ended the logger")]
F+=[("C20","fix: map every address","after mapping to IPs a CA sent its precertificates to the IP of the wrong logger, loggers still had localhost for the CAs, and a gossiper reported to its own IP instead of its monitor's"),
("C21","fix: files are replaced","a crash during a save left a truncated database; the client did not start again")]
F+=[("C22","fix: the gossiper starts a period afresh","the wipe at the end of a period replaced locks that handlers held (fatal: unlock of unlocked mutex), the log counted fragments while others were stored (concurrent map access), and a wipe between a fragment and its aggregation ended the gossiper"),
("C22","fix: the monitor's tables","objects that came in while the monitor wiped, cleaned or published, or while an accusation was due, ended it (concurrent map access)"),
("C22","fix: the tables of CAs and loggers","requests during periodic tasks ended CAs and loggers (concurrent map access); a precertificate that came while the logger published was in no tree"),
("C22","fix: the client's databases","checking a certificate or saving during an update ended the client (concurrent map access)")]
F+=[("C09","fix: fragments on different contents","fragments on different contents of the same signer and period were added up to an object that does not verify, in place of the threshold signed one"),
("C23","fix: monitors publish only tree heads","one threshold signed tree head that is not a tree head, or revocation that does not fit, made clients reject the whole update of an honest monitor")]
K=dict(property="C23",harness="VerifC23Late",label="clients take the updates after revocations that came late",status="known",what="VerifC23Late: a revocation that gets its threshold signature after the update of its period is made (last 20 seconds of the minute, or in the next one) is in no update, but the monitor builds on it; clients that lack it reject the whole next update. Publishing it later would need updates that keep the order of revocations of several periods, more than a small repair")
if not any(x.get("harness")=="VerifC23Late" for x in k): k.insert(2,K)
F+=[("C09","fix: threshold signed objects keep","a threshold signed object that was made after the minute ended was filed under the next period, in place of that period's own"),
("C18","fix: certificates of different keys","with two CAs, whose subjects have the same names, the certificates of the second got no proofs"),
("C18","fix: a logger proves every","a made-up precertificate with the SubjectKeyId of another kept the logger from sending that one's proof, and all after it")]
F += [("C18", "fix: the CA does not take an STH again", "an earlier STH of a logger, or the current one under another period, sent to the CA again, replaced the genuine one: certificates got no proof of that logger or one clients reject"),
      ("C18", "fix: the CA takes STHs of loggers only", "a monitor or another CA could get an STH and proofs of its own into certificates"),
      ("C12", "fix: statements of earlier periods do not count", "a logger or CA that answered its query with a statement of an earlier period was not accused, and was missing from the update")]
