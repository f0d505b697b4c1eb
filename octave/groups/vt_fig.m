function f = vt_fig ()
% an empty figure, never shown
  persistent h
  if isempty(h) || ~ishghandle(h), h = figure('visible', 'off') ; end
  set(0, 'CurrentFigure', h) ;
  clf(h) ;
  f = h ;
end
