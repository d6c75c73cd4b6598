:- foreign(scr(+term), [fct_name(cif_scr)]).
:- foreign(scrnd(+term), [fct_name(cif_scrnd), choice_size(1)]).
