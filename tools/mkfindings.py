# regenerates KNOWN_FINDINGS.txt: open findings by hand, fixed ones from the fix: commits in /repo
import subprocess
PROP={
'9317da7':'C01','bb9a05d':'C02','df249b6':'C08','1bd24d6':'C05','c6702f7':'C02','05b841f':'C02','1d3eba0':'C02','4648ad2':'C02','3161505':'C03',
'5c187dc':'C02','40b7ba0':'C02','b23cc97':'C02','002c31d':'C02','4bad791':'C06','aa0e223':'C05','8b6218a':'C04','e40bdb2':'C18','7cc1d43':'C10',
'ce4baa6':'C10','2ffbeb7':'C10','769bf51':'C10','eae00ad':'C10','80db648':'C09','13408b5':'C09','ef17181':'C08','3cd3815':'C13','f483c99':'C11',
'0f07a3a':'C12','179d56c':'C12','4572986':'C06','7fbf1df':'C06','13bb316':'C04','b94ad75':'C09','c27df5d':'C18','c337295':'C16','8b58972':'C14',
'3b920ab':'C14','77f2988':'C14','b842b9e':'C14','ca208d2':'C15','b87ab75':'C16','4333108':'C20','07be975':'C20','81163c0':'C14','81b51fd':'C04',
'47e1827':'C06','feeebc2':'C06','bb07359':'C06','480a700':'C06','4da3a44':'C06',
}
OPEN='''# Genuine defects of the code under test. "open" lines are reported as KNOWN-FINDING and
# suppress only the case that carries their key; "fixed" lines suppress nothing.
open: property=C06 key=inline-text an element that is not allowed inside text (titles, captions, labels, Ruby, Rt, Sup, Sub, LawNum, EnactStatement, table header cells), or a damaged Line there, is left out without an error (src/text.rs Text::from_children and Ruby/Sup/Sub readers)
'''
out=OPEN
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','484ed67..HEAD'],text=True)
for l in log.splitlines():
    h,s=l.split(' ',1)
    assert s.startswith('fix: ')
    out+=f"fixed: property={PROP[h]} {h} failed before: {s[5:]}\n"
open('/verif/KNOWN_FINDINGS.txt','w').write(out)
