for p in ["C01","C02","C03","C04","C05","C06","C08","C11","C17"]:
    claim(p, TECH["fs"], "histories are finite samples; each event is judged completely")
claim("C07", TECH["alloc"], "free-block maps and previous blocks are sampled; each answer is judged completely")
for p in ["C09","C10","C12","C13","C14","C15"]:
    claim(p, TECH["image"], "disk images are sampled; everything reported about each image is judged completely")
claim("C16", TECH["addr"], "addresses are enumerated completely per geometry; file sizes and contents are sampled")
claim("C18", TECH["text"], "codes and characters are enumerated completely; strings and widths are sampled")
claim("C19", TECH["text"], "sprites, buffers, files and disks are sampled; each rendering is judged completely")
claim("C20", TECH["cli"], "sessions are sampled; each command is judged completely")
