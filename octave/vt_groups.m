function g = vt_groups ()
% property, group, cases of the quick and of the thorough check
  g = { 'C40','pr',4000,60000
        'C40','roc',4000,60000
        'C41','colour',3000,40000
        'C41','gradient',2000,20000
        'C41','resample',2000,20000
        'C41','mosaic',2000,20000
        'C41','affine',2000,20000
        'C41','spline',2000,20000
        'C41','warp',2000,20000
        'C41','structure',1500,15000
        'C41','reading',300,3000
        'C46','aibcut',2000,20000
        'C46','treehist',2000,20000
        'C46','segments',1500,15000
        'C46','whist',2000,20000
        'C46','phow',300,3000
        'C46','lbpflip',1500,15000
        'C46','frames',1500,15000
        'C47','argparse',2000,20000
        'C47','override',2000,20000
        'C47','lists',2000,20000
        'C47','functions',1500,15000
        'C47','system',600,3000
        'C47','interface',400,3000
        'C48','frames',1200,20000
        'C48','boxes',900,15000
        'C48','grids',900,15000
        'C48','descriptors',700,10000
        'C48','layout',200,3000
        'C48','mosaics',600,10000
        'C48','curves',400,5000 } ;
end
