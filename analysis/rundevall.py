import sys, time, traceback
from rundev import *
P=prog()
names=sys.argv[1:] or ['lower::lower','action_table_vec','generate_goto_vec','generate_action_array','generate_goto_array','token_terminal_idx_fn','token_value_fn','parser_structs','generate_expected_state_tokens','generate_token_to_text','generate_semantic_action_table','semantic_action_result_type','generate_lr1_parser','::parser']
for nme in names:
    for b in P.find(nme):
        t=time.time()
        I=interp.Interp(P,prims)
        try:
            I.run(b)
            r='ok'
        except Exception as e:
            r=type(e).__name__+': '+str(e)[:300]
            if '-t' in sys.argv: traceback.print_exc()
        print(b.key, r, len(I.nodes), I.stats['blocks'], I.stats['maxstates'], '%.2f'%(time.time()-t), I.opaque_calls, I.unknown[:3])
