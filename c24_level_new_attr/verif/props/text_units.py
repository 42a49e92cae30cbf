# contracts shared by the properties about configuration and query text (not a property of its own)
_rw="_ZN4cali4util9read_wordB5cxx11ERSiPKc"
TEXT=[dict(file="pu_text.cpp", optional=True, native=False, sources=[], contracts=[
  dict(entry="text_read_word", unwind=4, bmc_unwind=6, bmc_entry="text_read_word_few", timeout=240, cuts={_rw:[dict(loop=0,inv="vf_inv_ws",havoc="vf_havoc_ws",phis=[]),dict(loop=1,inv="vf_inv_word",havoc="vf_havoc_word",phis=[("esc","i8")])]}, functions=["util::read_word"]),
  dict(entry="text_read_char", unwind=4, bmc_unwind=6, bmc_entry="text_read_char_few", timeout=120, cuts={"_ZN4cali4util9read_charERSi":[dict(loop=0,inv="vf_inv_ws",havoc="vf_havoc_ws",phis=[])]}, functions=["util::read_char"]),
  dict(entry="text_read_nested", unwind=4, bmc_unwind=6, bmc_entry="text_read_nested_few", timeout=240, cuts={"_ZN4cali4util16read_nested_textB5cxx11ERSicc":[dict(loop=0,inv="vf_inv_nested",havoc="vf_havoc_nested",phis=[("esc","i8"),("depth","i32")])]}, functions=["util::read_nested_text"])]),
 dict(file="pu_sep.cpp", optional=True, native=False, sources=[], contracts=[
  dict(entry="separator", unwind=4, bmc_unwind=8, bmc_entry="separator_few", timeout=120, cuts={"_ZN4cali4util9is_one_ofEcPKc":[dict(loop=0,inv="vf_inv_sep",phis=[("ptr","ptr")],ptrs={"ptr":"vf_ptr_sep"})]}, functions=["util::is_one_of"])])]
