#!/usr/bin/env python3
"""Writes /verif/known_findings.json: findings left in the tree ("known") and repaired ones ("fixed")."""
import json,subprocess
known=[
 dict(property="C08",key="pkg/table/table64.FullRange: New: the last ID of the full range is granted",status="known",
      what="table64.New(0, MaxUint64): the last ID of the full 64 bit range can never be claimed (a table counts its size in 64 bits and so indexes one ID fewer)"),
]
fixed=[
 ("C29","83d4236","FindFree/ClaimFree materialised and sorted every free index of the table"),
 ("C05","fafe71b","a table of size 0 accepted every index (size-1 wrapped around)"),
 ("C06","71e031d","ClaimRange claimed a wrong number of indexes and could wrap past the end"),
 ("C02","9c1ae08","GetAll took the read lock twice: deadlock with a waiting writer"),
 ("C01","6e9a71c","index table iterators read the live map without the lock"),
 ("C08","453c6d7","table16/32/64 over a full width had 0 slots: nothing could be claimed"),
 ("C09","3cf43a5","Get returned the internal index instead of the ID asked for"),
 ("C09","142ff5f","table16 listed entries with 32 bit IDs"),
 ("C03","3aee3ff","ClaimFree searched and claimed in two critical sections"),
 ("C10","48bfa92","IP ranges over 64 bits truncated their size and shared slots between addresses"),
 ("C13","03a9643","addOne on the largest ID of a width set bits outside it"),
 ("C13","3315122","the 64 bit subOne lost the upper 32 bits"),
 ("C13","ede3c69","the 64 bit mask of length 0 was not zero"),
 ("C14","b422876","IsValid panicked on the zero range"),
 ("C22","11f98a5","Clone lost the name, width and bit test of a tree"),
 ("C18","4f882a1","values of nodes 2^k apart shared a slot"),
 ("C04","37b9aa7","entries shared their label map with the caller"),
 ("C23","66dce47","tree32 searched free IDs outside its ID space"),
 ("C23","87f7335","ClaimFree searched and claimed in two critical sections and missed overlapping claims"),
 ("C02","13debfc","tree queries took the read lock twice"),
 ("C01","dc43f7c","tree queries ran without the lock"),
 ("C03","5b1b0f7","a release looked up and deleted in two critical sections"),
 ("C24","98789a3","trees accepted prefixes longer than their ID width"),
 ("C25","b228f45","ClaimRange claimed from an invalid range and ran without the lock"),
 ("C21","d9b59bb","tree iterators walked the live tree without the lock"),
 ("C21","384e946","Parents returned the entry asked for and other non-parents"),
 ("C13","058cff1","the 64 bit mask rejected every length above 32, so tree64 could not claim free IDs"),
 ("C27","2ba11b7","claiming an ID or range that is already claimed in a tree replaced the claim"),
 ("C25","9822cf2","two spellings of one prefix (4/29, 5/29) overwrote each other and were not found by get"),
 ("C17","f7502e1","RemoveFreePrefix with a length above the width handed out a malformed ID that is not removed from the set"),
 ("C18","56393d6","deleting one value dropped duplicates of the others"),
]
for p,c,w in fixed:
    known.append(dict(property=p,key="fixed: property=%s %s %s"%(p,c,w),status="fixed",commit=c,what=w))
for x in ():
    pass
json.dump(known,open('/verif/known_findings.json','w'),indent=1)
print(len(known))
