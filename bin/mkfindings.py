#!/usr/bin/env python3
import json, os
F = [dict(property='C16', id='KF-1', status='open',
  what='after an update whose removal leaves as the only child of a prefix tree node a leaf that the proof shows only the hash of, '
       'the auditor\'s prefix root differs from the log\'s and it refuses all later updates',
  where='tree/prefix/verify.go (EvaluateBeforeAfter) against tree/prefix/prefix.go (Mutate)',
  identified_by='spec/Katie.tla UnseenLeaf: revealing the leaves that the update\'s proof hides makes the difference go away; '
       'reproduced by scenario "kf1"')]
fixed = '''C07 e23a5f5 first verification without auditor head dereferenced a missing client state (panic)
C09 8f45b9d SameHead response made the user forget the auditor tree head
C09 eea0f12 tree heads larger than the one seen were refused and smaller ones accepted
C07 3ac4e19 proofs for an unchanged tree head were not relative to the user's tree
C06 5ac403a the user's view missed frontier entries when updated from a full subtree
C07 aeca055 search responses for absent labels lacked binary ladder steps
C18 9574eb9 retained versions of owned labels were not persisted
C18 c357283 owner state with a platform-dependent integer could not be encoded
C10 16640e9 contact monitoring with nothing left to monitor panicked
C11 9e2632a repeated consistent versions were refused, and merged wrongly
C19 e069357 a request advertising an empty tree made the log panic
C05 c6faf02 binary ladders overflowed for large versions
C11 f18391b inclusion proofs of several versions were refused
C06 959cb7d failure to find the rightmost distinguished entry was reported as success
C04 dde5f80 a second lookup ending at a leaf could claim another commitment for it
C04 a22a659 non-inclusion proofs presenting the searched leaf itself were accepted
C03 b072614 searching or mutating with an empty batch failed to load the root
C16 a6ccd2a an entry removed and added in one update was refused by the auditor
C16 32dd30e empty copath nodes were not recognized when collapsing after a removal
C17 0d96fca the auditor forgot recently inserted entries at the next update
C17 9dbb841 the first update was not required to start from an empty tree
C17 ab047d0 a tree head whose persistence failed was handed out on the next attempt
C21 b18b112 a rejected mutation left writes pending that a later commit made visible
C14 9644ecd the tree head was written outside the atomic batch
C20 4eceddd managed versions were signed from one instead of zero
C15 741b495 versions newer than the tree head operated on were served
C09 cc1d83a an auditor tree head could be left out, or given where none belongs
C10 32a6ccf redundant entries of the monitoring map were kept
C09 fc39be2 responses to requests made from an outdated state overwrote newer state
C12 e71e059 streamed update responses did not carry over the versions owned
C19 b80a797 lengths in messages made the decoder allocate before checking
C18 d94388b stored label state depended on map order
C18 c28d21c responses for absent versions under third-party management could not be decoded
C19 80b8231 prefix proofs with a leaf that is not where its VRF output leads made the auditor panic
C08 ed6a0a9 users retained commitments for versions that were not shown to exist
C21 68901ef writes of a failed LevelDB commit stayed visible and were part of the next commit
C18 87bc4cd lengths of lists in stored records made the decoder allocate without bound
C19 a3dde61 submitting versions to a log that is not under third-party management panicked
C20 f547880 concurrent updates could obtain the same version of a label from the in-memory counter
C10 235c38a after a search for a version next to newer ones in the same log entry, responses to monitoring could never be verified
C14 99b3043 commits to LevelDB were acknowledged before they had reached the disk, so that a machine that stops loses published tree heads'''
for l in fixed.split('\n'):
    p, h, w = l.split(' ', 2)
    F.append(dict(property=p, id='fixed-' + h, status='fixed', what=w, commit=h, line=f'fixed: property={p} {h} {w}'))
json.dump(dict(findings=F), open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
